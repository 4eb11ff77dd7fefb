-------------------------------- MODULE Toc --------------------------------
(* The table of contents: the headings (with their levels and elements) in   *)
(* order, nested by level, each linking to the place of its heading.         *)
EXTENDS RenderText, Depth

LOCAL TocLink(k, name) ==
    N("item", <<>>, <<Link("table-of-contents", UrlTarget("#toc" \o ToString(k)), None, "text", name, FALSE)>>)
RECURSIVE TocList(_)
TocList(es) == N("list", <<<<"type", "bullet">>>>,
                 Map(LAMBDA e : IF e.t = "item" THEN TocLink(e.x.k, e.x.name)
                                ELSE N("sub-list", <<>>, <<TocList(e.sub)>>), es))
TocTree(c, heads) ==
    LET items == FoldLeft(LAMBDA a, h : Append(a, [depth |-> h.level, ty |-> "", x |-> [k |-> Len(a), name |-> TextOf(c, h.els)]]), <<>>, heads)
    IN Map(LAMBDA t : TocList(t.es), DepthTrees("", items))
=============================================================================
