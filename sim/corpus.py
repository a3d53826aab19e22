"""Richer resources and messages than sim.gen writes: every construct that the formats have.

`resource(rng, fmt)` gives the text of a file; each fragment has a %d which makes its ids unique.
"""
from __future__ import annotations

import re
from collections import Counter

FRAG = {
    "fluent": [
        "simple%d = Simple text\n",
        "# comment\nattrs%d = Value { $var }\n    .title = Title { NUMBER($n, minimumFractionDigits: 2) }\n    .aria-label = { -term%d }\n",
        "-term%d = { $case ->\n    [nominative] Term\n   *[genitive] Terms\n }\n    .gender = masculine\n",
        "sel%d = { $count ->\n    [one] One { $user }\n    [0] None\n   *[other] { $count } of { DATETIME($date, month: \"long\") }\n }\n",
        "two%d = You have { $a ->\n    [one] { $a } apple\n   *[other] { $a } apples\n } and { $b ->\n    [one] a pear\n    [few] { $c } pears\n   *[other] { $d } pears\n } with { $e } and { $f }\n",
        "refs%d = See { simple0.attr } or { other } and { -brand(case: \"x\") } { \"\\u00e9\" } { \"{\" }\n",
        "multi%d =\n    First line\n    Second   line { $x }\n\n    Last\n",
        "## Group %d\n\n",
        "only%d =\n    .label = Only { PLATFORM() ->\n        [macos] Mac\n       *[other] Other\n     }\n",
        "### Resource %d\n\n",
        "# standalone comment %d\n\n",
    ],
    "properties": [
        "key%d = value\n", "# comment\nkey.two%d: value with \\u00e9 and \\n newline\n", "printf%d = Hello %%1$S and %%2$d %%%% of %%S\n",
        "long%d = one \\\n   two \\\n   three\n", "! bang comment %d\n\n", "sp\\ ace%d =   leading\n", "empty%d =\n", "nosep%d\n", "n\u00e9%d = caf\u00e9 \u20ac \U0001f600 \\u2028 \\t tab\n",
    ],
    "ini": ["[Sec%d]\n", "key%d=value\n", "# comment\nother%d = a value\n", "; semi %d\nmore%d=x\n", "multi%d = one\n  two\n  three\n"],
    "dtd": [
        "<!ENTITY key%d \"value\">\n", "<!-- comment %d -->\n<!ENTITY k.two%d 'with \"quotes\" &amp; &other;'>\n", "<!ENTITY %% foo%d SYSTEM \"chrome://x.dtd\">\n%%foo%d;\n",
        "<!ENTITY esc%d \"&#x41;&lt;b&gt; \\u0041\">\n",
    ],
    "inc": ["#define KEY%d value\n", "#define UNI%d \u00e9 \u20ac\n", "# comment\n#define OTHER%d a longer value\n", "#filter emptyLines%d\n\n", "#define EMPTY%d\n"],
    "gettext": [
        "msgid \"key%d\"\nmsgstr \"value\"\n\n", "# translator\n#. extracted\n#: src/a.py:%d\n#, python-format\nmsgctxt \"ctx\"\nmsgid \"key%d\"\nmsgstr \"val %%(x)s\"\n\n",
        "msgid \"one%d\"\nmsgid_plural \"many%d\"\nmsgstr[0] \"one item\"\nmsgstr[1] \"%%d items\"\n\n", "#~ msgid \"old%d\"\n#~ msgstr \"obsolete\"\n\n",
        "#, fuzzy\n#| msgid \"prev%d\"\nmsgid \"fuzzy%d\"\nmsgstr \"\"\n\"line one\\n\"\n\"line two\"\n\n",
    ],
    "plain_json": [
        "\"key%d\": \"value\"", "\"nest%d\": {\"a\": \"1\", \"b\": {\"c\": \"x {y}\"}}", "\"é%d\": \"\\u00e9\\n\"", "\"empty%d\": {}",
    ],
    "webext": [
        "\"key%d\": {\"message\": \"value\"}", "\"desc%d\": {\"message\": \"Hi $NAME$ and $other$\", \"description\": \"a comment\", \"placeholders\": {\"name\": {\"content\": \"$1\", \"example\": \"Bob\"}, \"OTHER\": {\"content\": \"$2 x\"}}}",
        "\"pos%d\": {\"message\": \"$1 of $2 costs $$5\"}",
    ],
    "android": [
        "<string name=\"key%d\">value</string>", "<!-- comment %d --><string name=\"b%d\" translatable=\"false\">a <b>bold %%1$s</b> &lt;i> %%%% it\\'s</string>",
        "<plurals name=\"p%d\"><item quantity=\"one\">%%d item</item><item quantity=\"other\">%%1$d items in <xliff:g id=\"box\" example=\"3\">%%2$s</xliff:g></item></plurals>",
        "<string-array name=\"arr%d\"><item>one</item><!-- c --><item>two <![CDATA[<b>x</b>]]></item></string-array>",
        "<string name=\"ref%d\">@string/other</string>", "<string name=\"sp%d\">  \"  quoted \" \\u0020\\n &foo;</string>", "<string name=\"a%d\" product=\"tablet\" comment=\"attr\">v<a href=\"http://x/?a=1&amp;b=2\">link</a></string>",
    ],
    "xliff": [
        "<trans-unit id=\"key%d\"><source>Source</source><target>Target</target></trans-unit>",
        "<trans-unit id=\"b%d\" approved=\"yes\"><source>Hello <x id=\"INTERPOLATION\" equiv-text=\"{{n}}\"/></source><target state=\"translated\">Hei <x id=\"INTERPOLATION\" equiv-text=\"{{n}}\"/> <g id=\"g1\" ctype=\"x-b\">b<ph id=\"2\">%%s</ph></g></target><note from=\"dev\">a note</note></trans-unit>",
        "<group id=\"g%d\"><trans-unit id=\"in%d\"><source>A</source></trans-unit></group>",
        "<trans-unit id=\"n%d\"><source>S</source><note>one</note><note priority=\"2\">two</note></trans-unit>",
        "<!-- comment %d -->",
    ],
    "xcode": [
        "<trans-unit id=\"key%d\" xml:space=\"preserve\"><source>Hello %%@ and %%2$ld</source><target>Hei %%@ ja %%2$ld</target><note>No comment</note></trans-unit>",
        "<trans-unit id=\"/n%d:dict/NSStringLocalizedFormatKey:dict/:string\"><source>%%#@format@</source><target>%%#@format@</target></trans-unit><trans-unit id=\"/n%d:dict/format:dict/one:dict/:string\"><source>%%d item</source><target>%%d asia</target></trans-unit><trans-unit id=\"/n%d:dict/format:dict/other:dict/:string\"><source>%%d items</source><target>%%d asiaa</target></trans-unit>",
        "<trans-unit id=\"p%d|==|plural.one\"><source>%%d cat</source><target>%%d kissa</target></trans-unit><trans-unit id=\"p%d|==|plural.other\"><source>%%d cats</source><target>%%d kissaa</target></trans-unit>",
    ],
}

MORE = {  # less usual forms
"fluent": ["# par1%d\n#\n# par2%d\npar%d = x\n", "## gr%d\n##\n## oup%d\n\n", "# sole%d\n\n# next%d\n\n", "e%d = { \"\" }\n", "b%d =\n    .a = x\n    .b =\n        multi\n        line\n", "q%d = { \"\\\\ \\\" q\" } end\n", "sp%d = {\"  \"}padded{\" \"}\n", "br%d = a { \"}\" } b\n",
  "deep%d = { $a ->\n    [one] { $b ->\n        [one] x\n       *[other] y\n    }\n   *[other] z\n }\n", "# c1\n# c2\n#\n# c3\nc%d = x\n", "num%d = { 5 } { -3.14 } { NUMBER(5, a: 1, b: \"x\") }\n",
  "ind%d =\n    a\n      b\n    c\n", "star%d = { \"*\" }\n    x\n", "dot%d = x\n    { \".\" }y\n    { \"[\" }z\n", "tr%d = { -t0(a: 1) }\n", "-tt%d = T\n    .x = { $v }\n", "# only comment %d\n\n\n\n", "uni%d = \\u0041 { \"\\u0041\" } { \"\\U01F600\" }\n",
  "sel2%d = { NUMBER($n, type: \"ordinal\") ->\n    [one] { $n }st\n    [two] { $n }nd\n   *[other] { $n }th\n } place\n", "at%d = { other.label } { PLATFORM() }\n", "a%d = A\n# glued\nb%d = B\n"],
"properties": ["# sole%d\n\n# next%d\n\n", "# glued%d\n! bang%d\ngl%d=1\n", "k\\:%d = v\n", "k\\=x%d=v\n", "tab%d\tv\n", "cr%d = a\\rb\n", "trail%d = v   \n", "esc%d = \\q\\z\\'\\\"\n", "hash\\#%d = #v\n", "\\#h%d = v\n", "bs%d = a\\\\\n", "nul%d = \\u0001x\n", "sp%d = \\ lead\n", "sp2%d = trail\\ \n", "nl%d = \\n\n", "cont%d = a\\\n\n", "#c1\n#c2\n#\n# c3\nkc%d=x\n", "eq%d = a = b : c\n", "# lone %d\n\n\n", "#\n#%d\n\n", "nbsp%d = \u00a0x\u00a0\n", "ls%d = a\u2028b\u0085c\n", "ff%d = \x0cv\n", "!x%d\nz%d=1\n", "##double%d\nyy%d=1\n"],
"ini": ["# sole%d\n\n# next%d\n\n", "# par1%d\n#\n# par2%d\npar%d=x\n", "# gr%d\n[Gr%d]\n# first%d\nx=y\n", "a b%d=x\n", "eq%d=a=b:c\n", "col%d: v\n", "empty%d=\n", "sp%d = v  \n", "[S.x%d]\nq=1\n", "# c1\n# c2\nz%d=1\n", "# lone%d\n\n", "[E%d]\n\n", "m%d=one\n\n  two\n", "m2%d=\n  one\n  two\n", "uni%d=\u00e9\u2028x\n", "pct%d=%%s %%(x)s\n", "semi%d=a ; b # c\n", "quote%d=\"q\"\n", "UP%d=x\nup%d=y\n", "br%d=[x]\n", "#nosp%d\nn%d=1\n", "## dbl%d\nn2%d=1\n", "# in sec %d\n[SC%d]\nb=1\n"],
"dtd": ["<!-- before%d -->\n<!ENTITY both%d \"x\"> <!-- after%d -->\n", "<!ENTITY a%d \"x\"><!ENTITY b%d \"y\">\n", "<!ENTITY c%d \"x\"> <!-- after%d -->\n", "<!-- <!ENTITY old%d \"x\"> -->\n", "<!ENTITY ml%d\n  \"a\n   b\">\n", "<!ENTITY sq%d 'it is'>\n", "<!ENTITY ap%d \"it's\">\n", "<!-- a\n     b\n  c%d -->\n<!ENTITY mc%d \"x\">\n", "<!-- lone%d -->\n\n\n", "<!ENTITY e%d \"\">\n", "<!ENTITY amp%d \"&amp;&quot;&#37;%%\">\n", "<!--\n c%d\n-->\n<!ENTITY n%d \"v\">\n", "<!-- l1%d -->\n<!-- l2 -->\n<!ENTITY two%d \"v\">\n", "<!ENTITY sp%d \" v \">\n", "<!-- LOCALIZATION NOTE (x%d): a -->\n<!ENTITY x%d 'a\"b'>\n"],
"inc": ["# sole%d\n\n# next%d\n\n", "# par1%d\n#\n# par2%d\n#define PAR%d x\n", "#define SP%d a  b  \n", "# c1\n# c2\n#define C%d x\n", "# lone%d\n\n", "#define U%d <a href=\"x\">#y</a>\n", "#define T%d\tv\n", "#unfilter x%d\n", "# #define OLD%d x\n", "\n\n", "#define  D%d  v\n"],
"gettext": ["msgid \"\"\n\"multi\\n\"\n\"key%d\"\nmsgstr \"\"\n\"v\\n\"\n\"w\"\n\n", "msgid \"esc\\t\\\"%d\\\\\"\nmsgstr \"a\\tb\\\"\\\\\"\n\n", "#: a.c b.c:1 c d.c:2\nmsgid \"ref%d\"\nmsgstr \"x\"\n\n", "#, c-format, fuzzy\nmsgid \"fl%d\"\nmsgstr \"\"\n\n", "#. e1\n#. e2\n# t1\n# t2\nmsgid \"cm%d\"\nmsgstr \"x\"\n\n", "#~ msgctxt \"c\"\n#~ msgid \"oc%d\"\n#~ msgstr \"x\"\n\n", "msgctxt \"a\"\nmsgid \"same%d\"\nmsgstr \"1\"\n\nmsgctxt \"b\"\nmsgid \"same%d\"\nmsgstr \"2\"\n\n", "msgid \"long%d "+"word "*30+"\"\nmsgstr \""+"Wort "*30+"\"\n\n", "msgid \"uni%d\"\nmsgstr \"\u00e9\\r\\nx\"\n\n", "#.\n#\nmsgid \"ec%d\"\nmsgstr \"x\"\n\n", "# t\n#~ msgid \"ot%d\"\n#~ msgstr \"x\"\n\n", "msgid \"pe%d\"\nmsgid_plural \"pes\"\nmsgstr[0] \"\"\nmsgstr[1] \"\"\n\n", "#: my%%20file.c:12\nmsgid \"rr%d\"\nmsgstr \"\\v\\a\\b\\f\"\n\n", "#. LOC \u00e9 "+"long "*30+"\nmsgid \"lc%d\"\nmsgstr \"x\"\n\n"],
"plain_json": ["\"a.b%d\": \"x\"", "\"\": \"x%d\"", "\"n%d\": {\"\": \"x\", \"a\": {}}", "\"u%d\": \"\\ud83d\\ude00 \u2028 \\u0000\"", "\"sl%d\": \"a\\/b\\\\\""],
"webext": ["\"m%d\": {\"message\": \"\"}", "\"u%d\": {\"message\": \"$a$\", \"placeholders\": {\"a\": {\"content\": \"$1\"}, \"unused\": {\"content\": \"x\"}}}", "\"d%d\": {\"message\": \"x\", \"description\": \"\"}", "\"dd%d\": {\"message\": \"$$ $$$ 5$ $x y$\"}", "\"p%d\": {\"message\": \"$A$ $a$\", \"placeholders\": {\"a\": {\"content\": \"lit $1 and $2\", \"example\": \"e\"}}}", "\"c%d\": {\"message\": \"$n$\", \"placeholders\": {\"n\": {\"content\": \"\"}}}", "\"nl%d\": {\"message\": \"a\\nb\\tc\", \"description\": \"l1\\nl2\"}", "\"es%d\": {\"message\": \"cost $$ trailing words\"}", "\"et%d\": {\"message\": \"$$lead $A$ mid $$$$ last $$\", \"placeholders\": {\"a\": {\"content\": \"$2\"}}}", "\"at%d\": {\"message\": \"$a@b$ $9 $10\", \"placeholders\": {\"a@b\": {\"content\": \"x\"}}}"],
"android": ["<plurals name=\"pj%d\">stray<item quantity=\"one\">first</item> stray <item quantity=\"other\">second</item></plurals>", "<string name=\"e%d\"></string>", "<string name=\"e2%d\"/>", "<string name=\"q%d\">\"it's\"</string>", "<string name=\"at%d\">\\@x \\?y @z</string>", "<string name=\"nl%d\">a\\nb\\tc\\\\d</string>", "<string name=\"ws%d\">\n   a\n   b   c\n  </string>", "<string name=\"u%d\">\\u00e9\\u0022</string>", "<string name=\"cd%d\"><![CDATA[<a href=\"x\">it\\'s & b</a>]]></string>", "<string name=\"ns%d\"><b><i>x</i> y</b> z<br/></string>", "<string name=\"g%d\"><xliff:g id=\"a\">%%1$s</xliff:g><xliff:g>x</xliff:g></string>", "<string name=\"f%d\" formatted=\"false\">%%s %%d 5%%</string>", "<string-array name=\"ea%d\"/>", "<string-array name=\"a1%d\"><item>@string/x</item><item/></string-array>", "<plurals name=\"p1%d\"><!-- c --><item quantity=\"few\">x</item><!-- d --><item quantity=\"other\">y</item></plurals>", "<!-- c1 --><!-- c2%d -->\n\n<string name=\"cc%d\">x</string>", "<string name=\"in%d\">a<!-- in -->b</string>", "<string name=\"amp%d\">&amp; &lt; &gt; &#8230; &quot;</string>", "<string name=\"lt%d\">a &lt;b>c&lt;/b></string>", "<string name=\"nb%d\">a\u00a0b \u2028 \U0001f600</string>", "<string name=\"sp%d\">\" a \"</string>", "<string name=\"sp2%d\">\\u0020a\\u0020</string>", "<string name=\"pc%d\">100%% %%%% %%1$.2f %%-5s</string>", "<string name=\"an%d\">a <annotation font=\"t\">b</annotation></string>", "<string name=\"q2%d\">?attr/x</string>", "<string name=\"em%d\"><b></b><b/> <i> </i></string>", "<string name=\"ent%d\">&foo; x</string>", "<!-- multi\n   line%d -->\n<string name=\"ml%d\">x</string>", "<!-- lone%d -->\n\n", "<!-- end%d -->", "<string-array name=\"ta%d\"><item>x</item><!-- after --></string-array>", "<plurals name=\"tp%d\"><item quantity=\"other\">y</item><!-- after --></plurals>", "<string-array name=\"tc%d\"><!-- in none --></string-array>", "<string-array name=\"ti%d\"><item>a<!-- within --></item></string-array>"],
"xliff": ["<trans-unit id=\"e%d\"><source/><target/></trans-unit>", "<trans-unit id=\"nt%d\"><source>a &amp; &lt;b&gt;</source></trans-unit>", "<trans-unit id=\"ws%d\" xml:space=\"preserve\"><source>  a\n b </source><target> x  </target></trans-unit>", "<trans-unit id=\"mrk%d\"><source>a <mrk mtype=\"term\">b</mrk> <bpt id=\"1\">[</bpt>c<ept id=\"1\">]</ept> <it id=\"2\" pos=\"open\">x</it></source><target>t</target></trans-unit>", "<trans-unit id=\"alt%d\"><source>a</source><target>b</target><alt-trans><source>q</source><target>r</target></alt-trans></trans-unit>", "<trans-unit id=\"cg%d\"><source>a</source><target>b</target><context-group purpose=\"location\"><context context-type=\"sourcefile\">x.ts</context></context-group></trans-unit>", "<group id=\"gg%d\"><note>gn</note><group id=\"h\"><trans-unit id=\"i%d\"><source>A</source><target>B</target></trans-unit></group></group>", "<trans-unit id=\"tn%d\" translate=\"no\" resname=\"r\"><source>a</source><target state=\"final\" xml:lang=\"fi\">b</target></trans-unit>", "<trans-unit id=\"cd%d\"><source><![CDATA[a <b>]]></source><target>x</target></trans-unit>", "<!-- c%d --><trans-unit id=\"cc%d\"><source>a</source><!-- mid --><target>b</target></trans-unit>", "<trans-unit id=\"ss%d\"><source>a. b.</source><seg-source><mrk mtype=\"seg\" mid=\"1\">a.</mrk></seg-source><target>x</target></trans-unit>", "<trans-unit id=\"ml%d\"><source>a</source><target>b</target><note>l1\nl2</note></trans-unit>", "<trans-unit id=\"x%d\"><source>a<x id=\"1\"/>b<x id=\"2\" ctype=\"lb\"/></source><target><g id=\"1\"><g id=\"2\">y</g><x id=\"3\"/></g></target></trans-unit>", "<bin-unit id=\"bu%d\" mime-type=\"x\"><bin-source><external-file href=\"x\"/></bin-source></bin-unit>"],
"xcode": ["<trans-unit id=\"e%d\"><source/><target/><note/></trans-unit>", "<trans-unit id=\"nl%d\" xml:space=\"preserve\"><source>a\nb\\n</source><target>x\ny</target><note>l1\nl2</note></trans-unit>", "<trans-unit id=\"nt%d\"><source>S %%lld</source></trans-unit>", "<trans-unit id=\"pc%d\"><source>100%% %%%% %%.2f</source><target>%%%%</target></trans-unit>"],
}

def _u(id, source, target=None, note=None, attrs=""):
    t = "" if target is None else f"<target{attrs}>{target}</target>"
    return f'<trans-unit id="{id}"><source>{source}</source>{t}{"" if note is None else f"<note>{note}</note>"}</trans-unit>'


def _sd(key, var, **variants):
    """A plural of a .stringsdict file."""
    fmt = variants.pop("fmt", f"%%#@{var}@")
    out = _u(f"/{key}%d:dict/NSStringLocalizedFormatKey:dict/:string", fmt, variants.pop("tr", fmt), *variants.pop("note", ()))
    return out + "".join(_u(f"/{key}%d:dict/{var}:dict/{k}:dict/:string", *v) for k, v in variants.items())


def _xc(key, **variants):
    """A message of an .xcstrings file."""
    return "".join(_u(f"{key}%d|==|{k.replace('_', '.')}", *v) for k, v in variants.items())


FRAG["stringsdict"] = [
    _sd("n", "items", one=("%%d item", "%%d asia"), other=("%%d items", "%%d asiaa")),
    _sd("nt", "V", zero=("none", "ei mit\u00e4\u00e4n"), one=("%%ld one", "%%ld yksi"), few=("few", "jokunen"), other=("%%ld other", "%%ld muu")),
    _sd("no", "V", one=("%%d a", None), other=("%%d b", None)),
    _sd("st", "V", one=("x", "y", None, ' state="translated"'), other=("xs", "ys", "noted", ' state="new"')),
    _sd("fm", "OTHERS", fmt="Followed by %%#@OTHERS@ and more", one=("%%2$@ and %%1$d other", "%%2$@ ja %%1$d muu"), other=("%%2$@ and %%1$d others", "%%2$@ ja %%1$d muuta")),
    _sd("tf", "V", fmt="%%#@V@ at home", tr="%%#@V@ kotona", one=("a", "b"), other=("c", "d")),
    _sd("te", "V", fmt="%%#@V@ here", tr="", one=("a", "b"), other=("c", "d")),
    _sd("ta", "V", fmt="%%#@V@ there", tr=None, other=("c", "d")),
    _sd("fn", "V", note=("key note",), one=("a", "b", "one note"), other=("c", "d", "other note")),
    _sd("eq", "V", one=("same", "sama", "same note"), other=("same", "sama", "same note")),
    _sd("o", "V", other=("only", "vain")),
    _sd("em", "V", one=("", ""), other=("x", "")),
    _u("plain%d", "Plain &amp; %%@", "Tavallinen"),
    _sd("tn", "V", one=("a", "b", "one note</note><note from=\"me\">second note"), other=("c", "d", "other note")),
]
FRAG["xcstrings"] = [
    _u("Hello %d", "Hello", None, "a plain string"),
    _u("t%d", "Hello %%@ 5%%", "Hei %%@", "one", ' state="translated"'),
    _u("e%d", "", ""),
    _u("tn%d", "two notes", "kaksi", "first note</note><note>second note"),
    _xc("pt", plural_one=("one", "yksi", "first note</note><note>second note"), plural_other=("many", "monta")),
    _xc("p", plural_one=("one %%lld", "yksi %%lld"), plural_other=("many %%lld", "monta %%lld")),
    _xc("pn", plural_one=("one", "yksi", "same note"), plural_other=("many", "monta", "same note")),
    _xc("pd", plural_zero=("none", "nolla", "zero note"), plural_one=("one", "yksi"), plural_other=("many", "monta", "other note")),
    _xc("po", plural_one=("one", None), plural_other=("many", None)),
    _xc("d", device_ipad=("pad", "padi", "pad note"), device_iphone=("phone", "puhelin"), device_other=("else", "muu")),
    _xc("ds", device_mac=("mac", "makki", "same"), device_other=("else", "muu", "same")),
    _xc("do", device_other=("else", "muu")),
    _u("s%d", "This %%1$@ has %%2$#@strings@.", "T\u00e4ss\u00e4 %%1$@ on %%2$#@strings@.", "base note") + _xc("s", substitutions_strings_plural_one=("%%2$lld string", "%%2$lld jono"), substitutions_strings_plural_other=("%%2$lld strings", "%%2$lld jonoa")),
    _u("ss%d", "%%1$#@aa@ and %%2$#@bb@", "%%1$#@aa@ ja %%2$#@bb@") + _xc("ss", substitutions_aa_plural_one=("%%1$lld apple", "omena"), substitutions_aa_plural_other=("%%1$lld apples", "omenaa"), substitutions_bb_plural_one=("%%2$lld ball", "pallo"), substitutions_bb_plural_other=("%%2$lld balls", "palloa")),
    _u("sn%d", "%%#@cc@ left", "%%#@cc@ j\u00e4ljell\u00e4", "same") + _xc("sn", substitutions_cc_plural_one=("%%arg coin", "kolikko", "same"), substitutions_cc_plural_other=("%%arg coins", "kolikkoa", "same")),
    _u("sm%d", "%%#@cc@ left", "%%#@cc@ x", "base") + _xc("sm", substitutions_cc_plural_one=("%%arg coin", "kolikko", "first"), substitutions_cc_plural_other=("%%arg coins", "kolikkoa", "second")),
]
XCODE = ["xcode", "stringsdict", "xcstrings"]

for _f, _l in MORE.items():
    FRAG[_f] = FRAG[_f] + _l

EXT = {"fluent": ".ftl", "properties": ".properties", "ini": ".ini", "dtd": ".dtd", "inc": ".inc", "gettext": ".po", "plain_json": ".json",
       "webext": ".json", "android": ".xml", "xliff": ".xliff", "xcode": ".xliff", "stringsdict": ".xliff", "xcstrings": ".xliff"}
FORMATS = list(FRAG)


def fill(f, i):
    return f % ((i,) * (f.replace("%%", "").count("%d")))


def wrap(fmt, parts):
    if fmt == "plain_json":
        return "{\n" + ",\n".join(parts) + "\n}\n"
    if fmt == "webext":
        return "{\n" + ",\n".join(parts) + "\n}\n"
    if fmt == "android":
        return ("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<!-- head -->\n<!DOCTYPE resources [\n  <!ENTITY foo \"Foo\">\n]>\n<resources xmlns:xliff=\"urn:oasis:names:tc:xliff:document:1.2\">\n    "
                + "\n    ".join(parts) + "\n</resources>\n")
    if fmt in ("xliff", *XCODE):
        orig = {"xliff": "a.ts", "xcode": "en.lproj/Localizable.strings", "stringsdict": "en.lproj/Localizable.stringsdict", "xcstrings": "App/Localizable.xcstrings"}[fmt]
        tool = "" if fmt == "xliff" else "<header><tool tool-id=\"com.apple.dt.xcode\" tool-name=\"Xcode\"/></header>"
        half = len(parts) // 2 if fmt == "xliff" else len(parts)
        files = [parts[:half], parts[half:]] if half and half < len(parts) else [parts]
        body = ""
        for n, ps in enumerate(files):
            d = f"{n}" if n else ""
            body += f"<file original=\"{d}{orig}\" source-language=\"en\" target-language=\"fi\" datatype=\"plaintext\">{tool}<body>\n" + "\n".join(ps) + "\n</body></file>\n"
        return f"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<xliff xmlns=\"urn:oasis:names:tc:xliff:document:1.2\" version=\"1.2\">\n{body}</xliff>\n"
    if fmt == "gettext":
        return "# head\nmsgid \"\"\nmsgstr \"\"\n\"Language: fi\\n\"\n\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n" + "".join(parts)
    if fmt == "ini":
        return "[Strings]\n" + "".join(parts)
    if fmt == "inc":
        return "#define MOZ_LANGPACK_CONTRIBUTORS x\n" + "".join(parts)
    return "".join(parts)


# The places of unusual characters: \ue000 as it is, \ue001 as \\u...., \ue002 as &#...;
CHARS = [*range(0, 0x20), 0x20, 0x22, 0x27, 0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xad, 0x200b, 0x200e, 0x2028, 0x2029, 0x202f, 0x3000, 0xfeff, 0xfffd, 0xfffe, 0x1f600]
ODD = {
    "fluent": ["ch%d = aa\ue000bb\n", "ce%d = aa { \"\ue001\" }bb\n", "cm%d =\n    aa\ue000\n    bb { \"\ue001 x\" } cc\n    .at = dd\ue000ee\n", "# co \ue000 mment\ncc%d = x\n",
               "cv%d = { $n ->\n    [one] \ue000b\n   *[other] b\ue000\n }\n"],
    "properties": ["ch%d = aa\ue001bb\n", "c\ue001k%d = x\n", "cr%d = aa\ue000bb\n", "ce%d = aa\ue001\n", "cs%d = \ue001 b\n", "# co\ue000mm\ncc%d = x\n"],
    "ini": ["ch%d=aa\ue000bb\n", "c\ue000k%d=x\n", "# co\ue000mm\ncc%d=x\n", "ce%d=bb\ue000\n"],
    "dtd": ["<!ENTITY ch%d \"aa\ue002bb\">\n", "<!ENTITY cr%d \"aa\ue000bb\">\n", "<!ENTITY ce%d '\ue002bb\ue002'>\n", "<!-- co\ue000mm -->\n<!ENTITY cc%d \"x\">\n"],
    "inc": ["#define ch%d aa\ue000bb\n", "# co\ue000mm\n#define cc%d x\n"],
    "gettext": ["msgid \"ch%d\"\nmsgstr \"aa\ue000bb\"\n\n", "# co\ue000mm\nmsgid \"cc%d\"\nmsgstr \"x\"\n\n"],
    "plain_json": ["\"ch%d\": \"aa\ue001bb\"", "\"c\ue001k%d\": \"x\"", "\"cr%d\": \"aa\ue000bb\""],
    "webext": ["\"ch%d\": {\"message\": \"aa\ue001bb\", \"description\": \"co\ue001mm\"}", "\"cr%d\": {\"message\": \"aa\ue000$A$bb\", \"placeholders\": {\"a\": {\"content\": \"\ue001x\"}}}"],
    "android": ["<string name=\"ch%d\">aa\ue001bb</string>", "<string name=\"cr%d\">aa\ue002bb</string>", "<string name=\"cq%d\">\"aa\ue002\"</string>", "<string-array name=\"ca%d\"><item>\ue001b</item><item>b\ue000</item></string-array>",
                "<!-- co\ue000mm --><string name=\"cc%d\">x</string>"],
    "xliff": ["<trans-unit id=\"ch%d\"><source>aa\ue002bb</source><target>cc\ue002dd</target><note>co\ue002mm</note></trans-unit>", "<trans-unit id=\"c\ue002k%d\"><source>\ue002bb</source><target>cc\ue002</target></trans-unit>"],
}
for _f in ("xcode", "stringsdict", "xcstrings"):
    ODD[_f] = ODD["xliff"]


def odd(rng, text):
    def one(m):
        c = rng.choice(CHARS)
        if m[0] == "\ue000":
            return " " if chr(c) in '"\n\r' else chr(c)
        return ("\\u%04x" % c if c < 0x10000 else "x") if m[0] == "\ue001" else f"&#{c};"

    return re.sub("[\ue000-\ue002]", one, text)


def resource(rng, fmt, n=None, odd_chars=False):
    frags = FRAG[fmt]
    if odd_chars:
        frags = frags + ODD[fmt] * 3
    n = n or rng.choice([1, 2, 3, 5, 8])
    parts = []
    for i in range(n):
        f = rng.choice(frags)
        if fmt == "fluent" and f.startswith("##"):
            if f.startswith("###") and i:
                continue
        parts.append(fill(f, i))
    if fmt == "fluent" and rng.random() < 0.4:
        parts.insert(0, "# Licence or info\n\n")
    if fmt == "dtd" and rng.random() < 0.2:
        parts.insert(0, "<!-- Licence -->\n\n")
    if fmt == "properties" and rng.random() < 0.3:
        parts.insert(0, "# Licence\n\n")
    if fmt not in ("plain_json", "webext", "gettext") and rng.random() < 0.3:
        parts = [("\n" if rng.random() < 0.4 else "") + p for p in parts]
    return odd(rng, wrap(fmt, parts)) if odd_chars else wrap(fmt, parts)


# Words which are part of the syntax, or are known to be left out
_SYNTAX = {
    "android": r"xmlns|stray|xliff|urn|oasis|names|tc|document|string|array|name|lt|gt|amp|quot|cdata|item|(?:tc|ea)\d+",
    "xliff": r"utf|cdata|source|target",
    "gettext": r"msgid|prev\d+",  # the previous msgid
    "plain_json": r"(?:empty|x)\d+",  # objects without messages, and duplicates
    "webext": r"description|content|unused|name|other|example",
}


def words(fmt, text):
    """The words of a file, in any order: what no rewriting of it may lose."""
    text = re.sub(r"\\U[0-9a-fA-F]{6}", " ", text)
    text = re.sub(r"\\[uU]\{?([0-9a-fA-F]{4})\}?", lambda m: chr(int(m[1], 16)), text)
    text = re.sub(r"\\[a-z]|&#\d+;", " ", text)
    drop = re.compile(_SYNTAX.get("xliff" if fmt in XCODE else fmt, "(?!)"))
    return Counter(w for w in re.findall(r"[^\W_]{2,}", text.lower()) if not drop.fullmatch(w))


def lost(fmt, before, after):
    return sorted((words(fmt, before) - words(fmt, after)).elements())


# (format name or None for MF2 syntax via mf2_parse_message, source, keyword arguments)
MESSAGES = [
    ("mf2", "Hello {$user}!", {}),
    ("mf2", ".input {$n :number minimumFractionDigits=2} .local $x = {|lit| :string} .match $n $x 0 a {{zero}} one * {{one {$n}}} * * {{{#b}other{/b} {#br /}}}", {}),
    ("mf2", ".local $b = {$a :f o=$c} .local $c2 = {$b} {{{$c2 :g @attr @x=|y z|}}}", {}),
    ("mf2", "{{ {|a b| :fn opt=|v| p=$q} \\{esc\\} }}", {}),
    ("mf2", "{$unclosed", {}),
    ("mf2", ".match $x * {{y}}", {}),
    ("mf2", ".input {$d} .input {$d} {{dup}}", {}),
    ("fluent", "{ $n ->\n    [one] { $n } item\n   *[other] { NUMBER($n) } items of { -brand }\n }", {}),
    ("fluent", "Plain { \"lit\" } { msg.attr } text", {}),
    ("fluent", "broken { $", {}),
    ("android", "Hello %1$s, <b>%2$d</b> &lt; %% \\u00e9 \\'", {}),
    ("android", "  a   b  ", {"android_ascii_spaces": True}),
    ("android", "<xliff:g id=\"x\">%s</xliff:g> <a href=\"u\">l</a>", {}),
    ("android", "<b>unclosed", {}),
    ("webext", "Hi $NAME$, $1 $$ $unknown$", {"webext_placeholders": {"name": {"content": "$1", "example": "Bob"}}}),
    ("webext", "Hi $ARG1$", {"webext_placeholders": {"arg1": {"content": "$2"}}}),
    ("webext", "no $missing$", {"webext_placeholders": {}}),
    ("xliff", "Hei <x id=\"A\" equiv-text=\"{{a}}\"/> <g id=\"1\">b</g>", {}),
    ("xliff", "%@ of %2$ld", {"xliff_is_xcode": True}),
    ("xliff", "<g>unclosed", {}),
    ("properties", "Hi %1$S \\u00e9 %d%%", {"printf_placeholders": True}),
    ("properties", "plain %S", {}),
    ("properties", "\u00e9\u00e8 \U0001f600\t%S", {"printf_placeholders": True}),
    ("fluent", "{ \"\" } trailing { -term(a: \"b\") } { FN($x, y: 1) }", {}),
    ("fluent", "", {}),
    ("plain_json", "plain {x}", {}),
    ("ini", "plain", {}),
    ("gettext", "val %(x)s", {"printf_placeholders": True}),
]


def junk(rng, fmt, t):
    """Something that doesn't belong there: to be kept or to be rejected, not to be dropped."""
    w = "zqword"
    if fmt in ("android", "xliff", *XCODE):
        cut = [m.end() for m in re.finditer(r"<[^<>]*>", t) if not re.match(r"</(file|xliff|resources)>|<xliff |<[?!]", m[0])]
        new = [f"<!-- {w} -->", f"<zqa>{w}</zqa>", f"<note>{w}</note>", f'<g id="{w}">zqx</g>', *([] if fmt == "android" else [w])]
    elif fmt == "plain_json":
        cut = [m.end() for m in re.finditer(r"[{,]", t)]
        new = [f'"{w}": "zqx",', f'"{w}": {{"message": "zqx"}},']
    elif fmt in ("webext", "gettext"):
        return t
    else:
        cut = [0, *(m.end() for m in re.finditer(r"(?<![\\\r])\r?\n", t)), len(t)]
        new = [f"{w}\n", f" {w}\n", f"{w} zqx\n", f"\n{w}\n\n", f"# {w}\n", f"{w}=zqx\n", f"{w}: zqx\n", f"[{w}]\n", f"  zqy {w}\n", f";{w}\n", f'"{w}"\n', f"// {w}\n", f"<!-- {w} -->\n", f"## {w}\n", f"! {w}\n"]
    if fmt in ("xliff", *XCODE) and rng.random() < 0.1:
        return t.replace('version="1.2"', f'version="{rng.choice(["2.0", "1.1", "1.0", ""])}"')
    if fmt in ("android", "xliff", *XCODE) and rng.random() < 0.2:
        cut = [m.end() - 1 for m in re.finditer(r"<\w[^<>]*[^/<>]>", t) if not m[0].startswith(("<item", "<body", "<string-array"))]
        new = [f' {w}="zqx"', f' xml:lang="{w}"', f' {w}="a &amp; &lt;b&gt; &quot;"']
    if not cut:
        return t
    i = rng.choice(cut)
    return t[:i] + rng.choice(new) + t[i:]


def fixable(rng, fmt):
    """A resource as it could be written by any tool, and whether it can certainly be parsed and serialized."""
    ok = True
    if fmt == "xliff" and rng.random() < 0.5:
        fmt = rng.choice(XCODE)
    if rng.random() < 0.12:
        t = resource(rng, fmt, n=rng.choice([1, 2, 3]), odd_chars=True)
        ok = False
    else:
        t = resource(rng, fmt, n=rng.choice([1, 2, 3, 5, 8]))
    if fmt == "xcstrings" and "substitutions.bb" in t:
        ok = False  # two selectors
    if rng.random() < 0.1:
        t = junk(rng, fmt, t)
        ok = False
    r = rng.random()
    if r < 0.12:
        t = t.replace("\n", "\r\n")
    elif r < 0.24:
        t = t.rstrip()
    elif r < 0.3 and fmt not in ("android", "xliff", *XCODE):
        t = "\n\n" + t
    return t, ok
