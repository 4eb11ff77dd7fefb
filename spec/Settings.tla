------------------------------ MODULE Settings ------------------------------
(* The documented values of the feature switches for each parse mode, and    *)
(* how an interwiki link is expanded.                                        *)
EXTENDS Str

Modes == {"page", "draft", "forum-post", "direct-message", "list"}
Layouts == {"wikidot", "wikijump"}
Private(m) == m \in {"forum-post", "direct-message"}   \* not pages
Switches(m) ==
    <<<<"enable-page-syntax", ~Private(m)>>, <<"use-include-compatibility", FALSE>>, <<"use-true-ids", m = "page">>,
      <<"isolate-user-ids", FALSE>>, <<"minify-css", TRUE>>, <<"allow-local-paths", ~Private(m)>>>>
Interwiki ==
    <<<<"wikipedia", "https://wikipedia.org/wiki/$$">>, <<"wp", "https://wikipedia.org/wiki/$$">>,
      <<"commons", "https://commons.wikimedia.org/wiki/$$">>, <<"google", "https://google.com/search?q=$$">>,
      <<"duckduckgo", "https://duckduckgo.com/?q=$$">>, <<"ddg", "https://duckduckgo.com/?q=$$">>,
      <<"dictionary", "https://dictionary.com/browse/$$">>, <<"thesaurus", "https://thesaurus.com/browse/$$">>>>
=============================================================================
