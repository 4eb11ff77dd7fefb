//! What is observed of one case.  Only ftml's public interface is used.

use ftml::data::{PageInfo, PageRef, ScoreValue};
use ftml::includes::{include, DebugIncluder, FetchedPage, IncludeRef, Includer, NullIncluder};
use ftml::layout::Layout;
use ftml::render::html::HtmlRender;
use ftml::render::text::TextRender;
use ftml::render::Render;
use ftml::settings::{WikitextMode, WikitextSettings};
use ftml::tree::SyntaxTree;
use serde_json::{json, Map, Value};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::Mutex;

fn s<'a>(v: &'a Value, key: &str, default: &'a str) -> &'a str {
    v.get(key).and_then(Value::as_str).unwrap_or(default)
}

pub fn settings(case: &Value) -> WikitextSettings {
    let mode = match s(case, "mode", "page") {
        "page" => WikitextMode::Page,
        "draft" => WikitextMode::Draft,
        "forum-post" => WikitextMode::ForumPost,
        "direct-message" => WikitextMode::DirectMessage,
        "list" => WikitextMode::List,
        other => panic!("harness: bad mode {other}"),
    };
    let layout = match s(case, "layout", "wikidot") {
        "wikidot" => Layout::Wikidot,
        _ => Layout::Wikijump,
    };
    let mut set = WikitextSettings::from_mode(mode, layout);
    if let Some(over) = case.get("set").and_then(Value::as_object) {
        for (k, v) in over {
            let b = v.as_bool().unwrap_or(false);
            match k.as_str() {
                "enable-page-syntax" => set.enable_page_syntax = b,
                "use-include-compatibility" => set.use_include_compatibility = b,
                "use-true-ids" => set.use_true_ids = b,
                "isolate-user-ids" => set.isolate_user_ids = b,
                "minify-css" => set.minify_css = b,
                "allow-local-paths" => set.allow_local_paths = b,
                "interwiki" => {
                    set.interwiki.prefixes = v
                        .as_object()
                        .expect("interwiki map")
                        .iter()
                        .map(|(k, v)| {
                            (Cow::Owned(k.clone()), Cow::Owned(v.as_str().unwrap().to_string()))
                        })
                        .collect()
                }
                other => panic!("harness: bad setting {other}"),
            }
        }
    }
    set
}

pub fn page_info(case: &Value) -> PageInfo<'static> {
    let none = Value::Null;
    let p = case.get("page").unwrap_or(&none);
    let own = |k: &str, d: &str| Cow::Owned(s(p, k, d).to_string());
    PageInfo {
        page: own("page", "some-page"),
        category: p.get("category").and_then(Value::as_str).map(|c| Cow::Owned(c.to_string())),
        site: own("site", "sandbox"),
        title: own("title", "A page for the age"),
        alt_title: p.get("alt").and_then(Value::as_str).map(|t| Cow::Owned(t.to_string())),
        score: ScoreValue::Integer(69),
        tags: match p.get("tags").and_then(Value::as_array) {
            Some(tags) => tags.iter().map(|t| Cow::Owned(t.as_str().unwrap().to_string())).collect(),
            None => vec![Cow::Borrowed("tale"), Cow::Borrowed("_cc")],
        },
        language: own("language", "default"),
    }
}

/// An includer that answers from a table, and records what it was asked.
struct TableIncluder<'c> {
    pages: BTreeMap<String, Option<String>>,
    fault: &'c str,
    log: &'c Mutex<Vec<Value>>,
}

impl<'t> Includer<'t> for TableIncluder<'_> {
    type Error = String;

    fn include_pages(&mut self, includes: &[IncludeRef<'t>]) -> Result<Vec<FetchedPage<'t>>, String> {
        asked(self.log, includes);
        if self.fault == "fetch-error" {
            return Err("fetch-error".into());
        }
        let mut out: Vec<FetchedPage<'t>> = includes
            .iter()
            .map(|i| FetchedPage {
                page_ref: i.page_ref().clone(),
                content: self
                    .pages
                    .get(&i.page_ref().to_string())
                    .cloned()
                    .unwrap_or(None)
                    .map(Cow::Owned),
            })
            .collect();
        match self.fault {
            "drop-last" => {
                out.pop();
            }
            "extra" => out.push(FetchedPage { page_ref: PageRef::page_only("extra"), content: None }),
            "swap" => out.reverse(),
            "wrong-ref" => {
                if let Some(p) = out.first_mut() {
                    p.page_ref = PageRef::page_only("wrong-ref");
                }
            }
            "other-site" => {
                for p in &mut out {
                    p.page_ref = PageRef::page_and_site("other", p.page_ref.page().to_owned());
                }
            }
            "no-site" => {
                for p in &mut out {
                    p.page_ref = PageRef::page_only(p.page_ref.page().to_owned());
                }
            }
            "longer" => {
                if let Some(p) = out.last_mut() {
                    p.page_ref.page = Cow::Owned(format!("{}x", p.page_ref.page()));
                }
            }
            "wrong-last" => {
                if let Some(p) = out.last_mut() {
                    p.page_ref = PageRef::page_only("wrong-ref");
                }
            }
            _ => {}
        }
        Ok(out)
    }

    fn no_such_include(&mut self, page_ref: &PageRef<'t>) -> Result<Cow<'t, str>, String> {
        if self.fault == "missing-error" {
            return Err("missing-error".into());
        }
        Ok(Cow::Owned(format!("<MISSING {page_ref}>")))
    }
}

/// Records what another includer is asked.
struct Asked<'c, I> {
    inner: I,
    log: &'c Mutex<Vec<Value>>,
}

impl<'t, I: Includer<'t, Error = std::convert::Infallible>> Includer<'t> for Asked<'_, I> {
    type Error = String;

    fn include_pages(&mut self, includes: &[IncludeRef<'t>]) -> Result<Vec<FetchedPage<'t>>, String> {
        asked(self.log, includes);
        self.inner.include_pages(includes).map_err(|e| e.to_string())
    }

    fn no_such_include(&mut self, page_ref: &PageRef<'t>) -> Result<Cow<'t, str>, String> {
        self.inner.no_such_include(page_ref).map_err(|e| e.to_string())
    }
}

fn asked(log: &Mutex<Vec<Value>>, includes: &[IncludeRef]) {
    let mut log = log.lock().unwrap();
    for i in includes {
        let vars: BTreeMap<&str, &str> =
            i.variables().iter().map(|(k, v)| (k.as_ref(), v.as_ref())).collect();
        let vars: Vec<Value> = vars.iter().map(|(k, v)| json!({"k": k, "v": v})).collect();
        log.push(json!({"page": page_ref(i.page_ref()), "vars": vars}));
    }
}

fn page_ref(p: &PageRef) -> Value {
    json!({"site": p.site().unwrap_or(""), "hassite": p.site().is_some(), "page": p.page()})
}

fn tokens_value(tokens: &[ftml::parsing::ExtractedToken]) -> Value {
    Value::Array(
        tokens
            .iter()
            .map(|t| {
                json!({
                    "t": serde_json::to_value(t.token).unwrap(),
                    "s": t.slice,
                    "a": t.span.start,
                    "b": t.span.end,
                })
            })
            .collect(),
    )
}

/// What the libraries make of the style sheets and the mathematics in a tree.
fn library(v: &Value, css: &mut Map<String, Value>, math: &mut Map<String, Value>) {
    use latex2mathml::{latex_to_mathml, DisplayStyle};
    use parcel_css::stylesheet::{ParserOptions, PrinterOptions, StyleSheet};

    match v {
        Value::Array(vs) => vs.iter().for_each(|v| library(v, css, math)),
        Value::Object(m) => {
            match (m.get("element").and_then(Value::as_str), m.get("data")) {
                (Some("style"), Some(Value::String(text))) => {
                    for (key, minify) in [("m:", true), ("p:", false)] {
                        let sheet = StyleSheet::parse(
                            text,
                            ParserOptions { error_recovery: true, ..Default::default() },
                        );
                        let made = sheet.ok().and_then(|sheet| {
                            sheet.to_css(PrinterOptions { minify, ..Default::default() }).ok().map(|o| o.code)
                        });
                        css.insert(
                            format!("{key}{text}"),
                            json!({"ok": made.is_some(), "text": made.unwrap_or_default()}),
                        );
                    }
                }
                (Some(kind @ ("math" | "math-inline")), Some(data)) => {
                    let source = data["latex-source"].as_str().unwrap_or_default();
                    let (key, style) = match kind {
                        "math" => ("b:", DisplayStyle::Block),
                        _ => ("i:", DisplayStyle::Inline),
                    };
                    let (ok, text) = match latex_to_mathml(source, style) {
                        Ok(text) => (true, text),
                        Err(error) => (false, error.to_string()),
                    };
                    math.insert(format!("{key}{source}"), json!({"ok": ok, "text": text}));
                }
                _ => (),
            }
            m.values().for_each(|v| library(v, css, math));
        }
        _ => (),
    }
}

pub fn observe(case: &Value, stages: &Mutex<Vec<String>>) -> Value {
    let at = |name: &str| stages.lock().unwrap().push(name.to_string());
    let want: Vec<&str> = match case.get("want").and_then(Value::as_array) {
        Some(w) => w.iter().filter_map(Value::as_str).collect(),
        None => vec!["pre", "tokens", "tree", "html", "text"],
    };
    let wants = |k: &str| want.contains(&k);
    let mut set = settings(case);
    let info = page_info(case);
    let mut out = Map::new();
    let original = s(case, "text", "").to_string();
    let mut text = original.clone();

    // --- standalone functions -------------------------------------------------
    match s(case, "op", "full") {
        "pageref" => {
            return match PageRef::parse(&text) {
                Ok(p) => json!({"ok": true, "ref": page_ref(&p), "shown": p.to_string()}),
                Err(_) => json!({"ok": false}),
            };
        }
        "bool" => {
            return match ftml::parsing::parse_boolean(&text) {
                Ok(b) => json!({"ok": true, "value": b}),
                Err(_) => json!({"ok": false}),
            };
        }
        "attributes" => {
            let mut map = ftml::tree::AttributeMap::new();
            let mut answers = Vec::new();
            let steps: Vec<[String; 3]> = serde_json::from_value(case["steps"].clone()).expect("steps");
            for [what, k, v] in &steps {
                answers.push(match what.as_str() {
                    "insert" if map.insert(k, Cow::Borrowed(v)) => "kept".to_string(),
                    "insert" => "left out".to_string(),
                    "remove" => map.remove(k).map_or("none".to_string(), |v| format!("was {v}")),
                    _ => {
                        set.isolate_user_ids = k == "on";
                        map.isolate_id(&set);
                        String::new()
                    }
                });
            }
            return json!({"answers": answers, "attrs": map.get(), "written": map, "own": map.to_owned()});
        }
        "interwiki" => {
            return match set.interwiki.build(&text) {
                Some(u) => json!({"ok": true, "url": u}),
                None => json!({"ok": false}),
            };
        }
        "utf16" => {
            let map = ftml::Utf16IndexMap::new(&text);
            let mut idx: Vec<usize> = text.char_indices().map(|(i, _)| i).collect();
            idx.push(text.len());
            let vals: Vec<Value> =
                idx.iter().map(|&i| json!({"u8": i, "u16": map.get_index(i)})).collect();
            return json!({"map": vals});
        }
        "settings" => {
            // written and read back
            let written = serde_json::to_string(&set).unwrap();
            let back: Result<WikitextSettings, _> = serde_json::from_str(&written);
            let written = serde_json::to_string(&info).unwrap();
            let back_info: Result<PageInfo, _> = serde_json::from_str(&written);
            return json!({
                "settings": serde_json::to_value(&set).unwrap(),
                "same": back.is_ok_and(|b| b == set),
                "info": back_info.is_ok_and(|b| b == info),
                "named": set.layout.value().parse::<Layout>().is_ok_and(|l| l == set.layout),
            });
        }
        "whitespace" => {
            ftml::preproc::whitespace::substitute(&mut text);
            return json!({"result": text});
        }
        "typography" => {
            ftml::preproc::typography::substitute(&mut text);
            return json!({"result": text});
        }
        "tokens" => {
            let tk = ftml::tokenize(&text);
            return json!({"tokens": tokens_value(tk.tokens())});
        }
        "prep" => {
            let (mut ws, mut ty) = (text.clone(), text.clone());
            ftml::preproc::whitespace::substitute(&mut ws);
            ftml::preproc::typography::substitute(&mut ty);
            ftml::preprocess(&mut text);
            return json!({"ws": ws, "ty": ty, "out": text});
        }
        "preprocess" => {
            ftml::preprocess(&mut text);
            let once = text.clone();
            ftml::preprocess(&mut text);
            return json!({"result": once, "twice": text});
        }
        "include" => {
            at("include");
            let pages = case
                .get("pages")
                .and_then(Value::as_object)
                .map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().map(str::to_string))).collect())
                .unwrap_or_default();
            let log = Mutex::new(Vec::new());
            let invalid = || "invalid-return".to_string();
            let r = match s(case, "fault", "") {
                "null" => include(&text, &set, Asked { inner: NullIncluder, log: &log }, invalid),
                "debug" => include(&text, &set, Asked { inner: DebugIncluder, log: &log }, invalid),
                fault => include(&text, &set, TableIncluder { pages, fault, log: &log }, invalid),
            };
            let asked = log.into_inner().unwrap();
            return match r {
                Ok((output, pages)) => json!({
                    "ok": true, "error": "", "output": output, "asked": asked,
                    "pages": pages.iter().map(page_ref).collect::<Vec<_>>(),
                }),
                Err(e) => json!({"ok": false, "error": e, "output": "", "asked": asked, "pages": []}),
            };
        }
        "history" => return crate::history::history(case),
        "full" => {}
        other => panic!("harness: unknown op {other}"),
    }

    // --- the pipeline -----------------------------------------------------------
    if case.get("include").and_then(Value::as_bool).unwrap_or(false) {
        at("include");
        let pages = case
            .get("pages")
            .and_then(Value::as_object)
            .map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().map(str::to_string))).collect())
            .unwrap_or_default();
        let log = Mutex::new(Vec::new());
        let r = include(
            &original,
            &set,
            TableIncluder { pages, fault: "", log: &log },
            || "invalid-return".to_string(),
        );
        text = r.map(|(o, _)| o).unwrap_or_default();
    }
    if !case.get("nopre").and_then(Value::as_bool).unwrap_or(false) {
        at("preprocess");
        ftml::preprocess(&mut text);
    }
    if wants("pre") {
        out.insert("pre".into(), json!(text));
    }

    at("tokenize");
    let tokenization = ftml::tokenize(&text);
    if wants("tokens") {
        out.insert("tokens".into(), tokens_value(tokenization.tokens()));
    }
    if wants("u16") {
        at("utf16");
        let map = ftml::Utf16IndexMap::new(&text);
        let toks: Vec<_> = tokenization.tokens().iter().map(|t| t.to_utf16_indices(&map)).collect();
        out.insert("tokens16".into(), tokens_value(&toks));
    }

    at("parse");
    let made = case.get("tree").map(Value::to_string);
    let (tree, errors): (SyntaxTree, Vec<ftml::parsing::ParseError>) = match made {
        // a tree which was written down, instead of one of the text
        Some(ref made) => (serde_json::from_str(made).expect("tree reads"), vec![]),
        None => ftml::parse(&tokenization, &info, &set).into(),
    };
    let tree_value = serde_json::to_value(&tree).expect("tree serializes");
    if wants("tree") {
        out.insert("tree".into(), tree_value.clone());
        out.insert("errors".into(), serde_json::to_value(&errors).unwrap());
    }
    if wants("u16") {
        at("utf16");
        let map = ftml::Utf16IndexMap::new(&text);
        let errs: Vec<_> = errors.iter().map(|e| e.to_utf16_indices(&map)).collect();
        out.insert("errors16".into(), serde_json::to_value(&errs).unwrap());
    }

    let render_html = |tree: &SyntaxTree| HtmlRender.render(tree, &info, &set);
    if wants("html") {
        at("render-html");
        let h = render_html(&tree);
        out.insert("html".into(), json!(h.body));
        let (mut css, mut math) = (Map::new(), Map::new());
        if !wants("outcome") {
            library(&tree_value, &mut css, &mut math);
        }
        out.insert("css".into(), Value::Object(css));
        out.insert("math".into(), Value::Object(math));
        out.insert("now".into(), json!(std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()));
        out.insert("backlinks".into(), serde_json::to_value(&h.backlinks).unwrap());
        out.insert("meta".into(), serde_json::to_value(&h.meta).unwrap());
        let metas: Vec<String> = h
            .meta
            .iter()
            .map(|m| {
                let mut b = String::new();
                m.render(&mut b);
                b
            })
            .collect();
        out.insert("metahtml".into(), json!(metas));
    }
    if wants("text") {
        at("render-text");
        out.insert("text".into(), json!(TextRender.render(&tree, &info, &set)));
    }

    if wants("partial") {
        at("render-text");
        let part = |e: &[ftml::tree::Element]| json!(TextRender.render_partial(e, &info, &set, 0));
        let all = tree.elements.iter().map(|e| part(std::slice::from_ref(e)));
        out.insert("safe".into(), tree.elements.iter().map(|e| e.paragraph_safe()).collect());
        out.insert("partial".into(), all.chain(tree.footnotes.iter().map(|f| part(f))).collect());
    }

    at("end");
    Value::Object(out)
}
