"""Strict tokenizer for the HTML that ftml renders.

It turns the rendered string into the event sequence the specifications talk
about.  It accepts exactly one spelling for everything, so that anything that
could be read differently by a browser becomes a ["bad", ...] event:

  ["o", tag, [[key, value|"" , has_value], ...]]   <tag key="value" key>
  ["c", tag]                                        </tag>
  ["t", text]                                       character data, unescaped
  ["r", text]                                       raw text of <style>/<script>/<math>
  ["bad", position, snippet]

Text and attribute values are decoded from the five escapes ftml uses; a bare
'<', '>', '"', "'" or '&' anywhere in them is "bad"."""
import re

TAG = re.compile(r'<([a-z][a-z0-9-]*)')
ATTR = re.compile(r' ([A-Za-z][A-Za-z0-9_-]*)(=")?')
CLOSE = re.compile(r'</([a-z][a-z0-9-]*)>')
ENT = {'&gt;': '>', '&lt;': '<', '&amp;': '&', '&#39;': "'", '&quot;': '"'}
ENTRE = re.compile(r'&(?:gt|lt|amp|quot|#39);')
BADCH = re.compile(r'[<>"\'\0]')
RAW = {'style', 'script'}


def decode(s):
    """Unescape, or None if something is not escaped the way ftml does."""
    out, i = [], 0
    while True:
        j = s.find('&', i)
        seg = s[i:] if j < 0 else s[i:j]
        if BADCH.search(seg):
            return None
        out.append(seg)
        if j < 0:
            return ''.join(out)
        m = ENTRE.match(s, j)
        if not m:
            return None
        out.append(ENT[m.group()])
        i = m.end()


def events(h, opaque=()):
    """`opaque`: strings which are passed through unescaped by contract (the
    handle's own output and generated MathML), to be cut out as ["r", ...]."""
    ev, i, n = [], 0, len(h)
    while i < n:
        if h[i] != '<':
            j = h.find('<', i)
            j = n if j < 0 else j
            t = decode(h[i:j])
            ev.append(['bad', i, h[i:j][:60]] if t is None else ['t', t])
            i = j
            continue
        m = CLOSE.match(h, i)
        if m:
            ev.append(['c', m.group(1)])
            i = m.end()
            continue
        m = TAG.match(h, i)
        if not m:
            ev.append(['bad', i, h[i:i + 60]])
            i += 1
            continue
        tag, attrs, j, ok = m.group(1), [], m.end(), True
        while True:
            if j < n and h[j] == '>':
                j += 1
                break
            a = ATTR.match(h, j)
            if not a:
                ok = False
                break
            j = a.end()
            if a.group(2):
                k = h.find('"', j)
                v = None if k < 0 else decode(h[j:k])
                if v is None:
                    ok = False
                    break
                attrs.append([a.group(1), v, True])
                j = k + 1
            else:
                attrs.append([a.group(1), '', False])
        if not ok:
            ev.append(['bad', i, h[i:i + 80]])
            i += 1
            continue
        ev.append(['o', tag, attrs])
        i = j
        if tag in RAW:
            k = h.find('</' + tag, i)
            k = n if k < 0 else k
            ev.append(['r', h[i:k]])
            i = k
        elif tag == 'math':
            k = h.find('</math>', i)
            k = n if k < 0 else k
            ev.append(['r', h[i:k]])
            i = k
    return ev
