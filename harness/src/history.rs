//! Histories: the stages of the pipeline, run in a given order on given
//! threads, several at a time where the history says so.

use crate::obs::{page_info, settings};
use ftml::data::PageInfo;
use ftml::parsing::ParseError;
use ftml::render::html::HtmlRender;
use ftml::render::text::TextRender;
use ftml::render::Render;
use ftml::settings::WikitextSettings;
use ftml::tree::SyntaxTree;
use ftml::Tokenization;
use serde_json::{json, Value};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;
use std::thread;

struct Doc {
    text: String,
    info: PageInfo<'static>,
    set: WikitextSettings,
    /// a tree which was written down, to be taken for the one of the text
    tree: Option<&'static str>,
}

/// What a step makes, and later steps may use.
#[derive(Clone)]
enum Item {
    Tokens(Arc<Tokenization<'static>>),
    Tree(Arc<SyntaxTree<'static>>),
    Nothing,
}

type Job = (String, Item, Arc<Doc>);
type Done = (Item, Value);

// Objects are written with their keys in order: hash maps have none.
fn perform((op, item, doc): Job) -> Done {
    let tree_done = |tree: SyntaxTree<'static>, extra: Value| {
        let v = json!({"tree": serde_json::to_value(&tree).expect("tree serializes").to_string(), "x": extra});
        (Item::Tree(Arc::new(tree)), v)
    };
    match (op.as_str(), item) {
        ("prepare", _) => {
            let mut text = doc.text.clone();
            ftml::preprocess(&mut text);
            let text: &'static str = Box::leak(text.into_boxed_str());
            let tokens = ftml::tokenize(text);
            let v = json!({"text": text, "tokens": serde_json::to_string(tokens.tokens()).unwrap()});
            (Item::Tokens(Arc::new(tokens)), v)
        }
        ("parse", Item::Tokens(_)) if doc.tree.is_some() => {
            tree_done(serde_json::from_str(doc.tree.unwrap()).expect("tree reads"), json!([]))
        }
        ("parse", Item::Tokens(tokens)) => {
            // the tree borrows from the text, which stays
            let tokens: &'static Tokenization<'static> = Box::leak(Box::new((*tokens).clone()));
            // page information and settings are borrowed by the tree, too
            let doc: &'static Doc = Box::leak(Box::new(Doc {
                text: String::new(),
                info: doc.info.clone(),
                set: doc.set.clone(),
                tree: None,
            }));
            let (tree, errors): (SyntaxTree<'static>, Vec<ParseError>) =
                ftml::parse(tokens, &doc.info, &doc.set).into();
            tree_done(tree, serde_json::to_value(&errors).unwrap())
        }
        ("own", Item::Tree(tree)) => {
            let copy: SyntaxTree<'static> = SyntaxTree::to_owned(&*tree);
            let same = copy == *tree;
            tree_done(copy, json!(same))
        }
        ("copy", Item::Tree(tree)) => {
            let copy = (*tree).clone();
            let same = copy == *tree;
            tree_done(copy, json!(same))
        }
        ("read", Item::Tree(tree)) => {
            let written: &'static str = Box::leak(serde_json::to_string(&*tree).unwrap().into_boxed_str());
            // trees may be deeper than the 128 levels which serde_json allows by default
            let mut reader = serde_json::Deserializer::from_str(written);
            reader.disable_recursion_limit();
            match <SyntaxTree<'static> as serde::Deserialize>::deserialize(&mut reader) {
                Ok(back) => {
                    let same = back == *tree;
                    tree_done(back, json!(same))
                }
                Err(error) => (Item::Nothing, json!({"tree": "", "x": error.to_string()})),
            }
        }
        ("html", Item::Tree(tree)) => {
            let h = HtmlRender.render(&tree, &doc.info, &doc.set);
            let v = json!({
                "html": h.body,
                "backlinks": serde_json::to_value(&h.backlinks).unwrap(),
                "meta": serde_json::to_value(&h.meta).unwrap(),
            });
            (Item::Nothing, v)
        }
        ("text", Item::Tree(tree)) => {
            (Item::Nothing, json!({"text": TextRender.render(&tree, &doc.info, &doc.set)}))
        }
        // what it needs was not made
        _ => (Item::Nothing, json!({"missing": op})),
    }
}

/// case: docs, events of the form ["start", thread, op, item or -1, doc] and
/// ["end", thread]; items are numbered in the order in which they end.
pub fn history(case: &Value) -> Value {
    let docs: Vec<Arc<Doc>> = case["docs"]
        .as_array()
        .expect("docs")
        .iter()
        .map(|d| {
            Arc::new(Doc {
                text: d["text"].as_str().unwrap().to_string(),
                info: page_info(d),
                set: settings(d),
                tree: d.get("tree").map(|t| &*Box::leak(t.to_string().into_boxed_str())),
            })
        })
        .collect();
    let mut workers: Vec<(Sender<Job>, Receiver<Done>)> = Vec::new();
    let mut items: Vec<Item> = Vec::new();
    let mut values: Vec<Value> = Vec::new();
    for e in case["events"].as_array().expect("events") {
        let th = e[1].as_u64().unwrap() as usize;
        while workers.len() <= th {
            let (job_tx, job_rx) = channel::<Job>();
            let (done_tx, done_rx) = channel::<Done>();
            thread::Builder::new()
                .stack_size(16 * 1024 * 1024)
                .spawn(move || {
                    while let Ok(job) = job_rx.recv() {
                        if done_tx.send(perform(job)).is_err() {
                            break;
                        }
                    }
                })
                .unwrap();
            workers.push((job_tx, done_rx));
        }
        if e[0] == "start" {
            let item = match e[3].as_i64().unwrap() {
                -1 => Item::Nothing,
                k => items[k as usize].clone(),
            };
            let doc = Arc::clone(&docs[e[4].as_u64().unwrap() as usize]);
            workers[th].0.send((e[2].as_str().unwrap().to_string(), item, doc)).expect("worker");
        } else {
            let (item, value) = workers[th].1.recv().expect("a stage panicked");
            items.push(item);
            values.push(value);
        }
    }
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    json!({"values": values, "now": now})
}
