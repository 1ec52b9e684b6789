"""C08 and C23: programs full of metric declarations, generated from the seed.

C08: the programs are built against /repo and run; each prints the listing it
observes, which is compared here with what was declared.
C23: declarations are put through the compiler (which runs the attribute macro
of /repo), well-formed ones and mutations of them that must be refused.
"""
import concurrent.futures, json, os, random, re, shutil, time
import legs
from legs import outcome

SKELETON = os.path.join(legs.HARNESS, "decl")
KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut "
               "pub ref return self Self static struct super trait true type unsafe use where while async await dyn "
               "abstract become box do final macro override priv typeof unsized virtual yield try gen union _".split())
IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*\Z")

PIECES = ["a", "b", "metric", " ", "\"", "\\", "\n", ",", "=", "{", "}", "/", "\u00e9", "\U0001F980", "\t", "0", "x_y",
          ".", "'", "#", "::", "description", "name", "unit", "{}", "%s", "//", "*/", "$", "@", "\u200d", "\0"]


def text(r):
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 8, 20])
    return "".join(r.choice(PIECES) for _ in range(n))


def word(r):
    return r.choice("abcxyz") + "".join(r.choice("abcz_019") for _ in range(r.randint(0, 6)))


IDENTS = ["_a", "__", "_0", "a_", "__x__", "A", "Ab", "aB", "UPPER_CASE", "r", "b", "k9", "K9", "cl\u00e9", "\u00c9t\u00e9",
          "name", "description", "metadata", "formatter", "metric", "crate_", "x" * 300]


def a_key(r, have):
    """A metadata key, often one that is nearly another one."""
    if have and r.random() < 0.3:
        k = r.choice(have)
        return r.choice([k.swapcase(), k.upper(), k.lower(), "_" + k, k + "_", " " + k, k + " ", k + "0", k[:-1], k[1:], k + k,
                         "\"" + k + "\"", "r#" + k])
    how = r.random()
    return r.choice(IDENTS) if how < 0.2 else word(r) if how < 0.6 else text(r)


def plain(s, r=None):
    o = []
    for c in s:
        if c == '"':
            o.append('\\"')
        elif c == "\\":
            o.append("\\\\")
        elif c == "\n":
            o.append("\\n")
        elif c == "\t":
            o.append("\\t")
        elif c == "\0":
            o.append("\\0")
        elif ord(c) == 0x200d:
            o.append("\\u{200d}")
        elif r and r.random() < 0.3:
            o.append("\\u{%x}" % ord(c) if ord(c) > 127 or r.random() < 0.5 else "\\x%02x" % ord(c))
        else:
            o.append(c)
    return '"' + "".join(o) + '"'


def literal(s, r):
    """A string literal with this value, in one of its spellings."""
    how = r.randint(0, 3)
    if how == 0 and not any(c in s for c in "\r\0\u200d"):
        h = "#"
        while '"' + h in s:
            h += "#"
        if "\\" in s or '"' in s or r.random() < 0.7:
            return f'r{h}"{s}"{h}'
        return f'r"{s}"'
    if how == 1:
        return plain(s, r)
    return plain(s)


def expression(s, r):
    """An expression with this value."""
    how = r.randint(0, 10)
    if how == 8:
        return "if %s { %s } else { \"\" }" % (r.choice(["true", "1 + 1 == 2", "!false"]), literal(s, r))
    if how == 9:
        return "match %d { 7 => \"seven\", _ => %s }" % (r.choice([1, 2]), literal(s, r))
    if how == 10:
        return "{ const fn v<T: ?Sized>(_: &T) -> &'static str { %s } v::<[u8]>(&[]) }" % literal(s, r)
    if how == 0 and s:
        k = r.randint(0, len(s))
        return f"concat!({literal(s[:k], r)}, {literal(s[k:], r)})"
    if how == 1:
        return "{ const V: &str = %s; V }" % literal(s, r)
    if how == 2:
        return f"({literal(s, r)})"
    return literal(s, r)


def ident_ok(s):
    return (bool(IDENT.match(s)) or s in IDENTS) and s not in KEYWORDS


def key(s, r):
    if ident_ok(s) and r.random() < 0.6:
        return s
    return literal(s, r)


TYPES = ["Counter", "Counter", "Gauge", "AtomicHistogram", "RwLockHistogram", "LazyCounter", "LazyGauge", "Lazy",
         "Custom", "Zero", "Wrap", "Const", "Own"]


class Decl:
    """One declaration: what is written and what must be observed."""

    def __init__(self, r, ident, root="metriken", crate_arg=None, attr=None):
        self.ident = ident
        self.type = r.choice(TYPES)
        self.name = None
        self.description = None
        self.formatter = None
        self.metadata = None
        self.args = []          # (argument, text)
        self.direct_items = []
        self.root = root
        if r.random() < 0.75:
            self.name = text(r) if r.random() < 0.4 else word(r) + "." + word(r)
            self.args.append(("name", expression(self.name, r)))
        if r.random() < 0.5:
            self.description = text(r)
            self.args.append(("description", expression(self.description, r)))
        if r.random() < 0.6:
            n = r.choice([0, 1, 1, 2, 3, 5, 9, 17, 40]) if r.random() > 0.01 else r.randint(100, 300)
            self.metadata = {}
            for _ in range(n):
                k = a_key(r, list(self.metadata))
                self.metadata[k] = text(r)
            values = {k: expression(v, r) for k, v in self.metadata.items()}
            items = [f"{key(k, r)} = {v}" for k, v in values.items()]
            self.direct_items = [f"{plain(k)} => {v}" for k, v in values.items()]
            self.meta_items = items
            tail = "," if items and r.random() < 0.4 else ""
            self.args.append(("metadata", "{ " + ", ".join(items) + tail + " }"))
        if r.random() < 0.3:
            self.formatter = r.choice(["A", "B"])
            f = {"A": r.choice([f"{root}_fmt::a", f"{{ {root}_fmt::a }}", f"{root}_fmt::Style::a::<3>", f"<{root}_fmt::Style as {root}_fmt::Styled>::a"]),
                 "B": f'|m: &{root}::MetricEntry, f| {root}_fmt::b(m, f)'}[self.formatter]
            self.args.append(("formatter", f))
        if crate_arg:
            self.args.append(("crate", crate_arg))
        r.shuffle(self.args)
        self.attr = attr or f"{root}::metric"
        self.vis = r.choice(["", "", "pub ", "pub(crate) "])
        self.doc = r.choice(["", "", "/// A metric.\n", "#[allow(dead_code)]\n"])
        self.doc_first = r.random() < 0.5
        # Attributes of the static's own keep their meaning.
        self.symbol = self.lint = False
        own = r.random()
        if own < 0.12:
            self.symbol = f"vp_{r.getrandbits(64):016x}"
            self.doc += r.choice(["#[export_name = \"%s\"]\n", "#[cfg_attr(all(), export_name = \"%s\")]\n",
                                  "#[cfg(all())]\n#[doc(hidden)]\n#[export_name = \"%s\"]\n"]) % self.symbol
        elif own < 0.24:
            self.lint = True
            self.doc += r.choice(["#[allow(non_upper_case_globals)]\n", "#[cfg_attr(not(any()), allow(nonstandard_style))]\n"])
            self.ident = "lower_" + ident
        elif own < 0.3:
            self.doc += r.choice(["#[cfg(all())]\n", "#[doc(hidden)]\n", "#[used]\n", "#[cfg_attr(any(), no_such_attribute)]\n"])
        # A declaration that is configured away, before or after the attribute.
        self.absent = ""
        if r.random() < 0.08:
            off = r.choice(["#[cfg(any())]", "#[cfg(not(all()))]", "#[cfg_attr(all(), cfg(any()))]"])
            at = f"#[{self.attr}(name = \"absent.{r.getrandbits(32)}\")]"
            self.absent = r.choice([f"{off} {at}", f"{at} {off}"]) + \
                f" static ABSENT_{r.getrandbits(64):X}: {root}::Counter = {root}::Counter::new();\n"
        self.id = None
        self.direct = False     # by way of declare_metric_v1

    @property
    def shown_name(self):
        return self.ident if self.name is None else self.name

    def attribute(self, args=None):
        args = self.args if args is None else args
        if not args:
            return f"#[{self.attr}]" if self.name is None else f"#[{self.attr}()]"
        return f"#[{self.attr}(" + ", ".join(f"{k} = {v}" for k, v in args) + ")]"

    def static(self):
        m = self.root
        t, e = {
            "Counter": (f"{m}::Counter", f"{m}::Counter::new()"),
            "Gauge": (f"{m}::Gauge", f"{m}::Gauge::new()"),
            "AtomicHistogram": (f"{m}::AtomicHistogram", f"{m}::AtomicHistogram::new(4, 32)"),
            "RwLockHistogram": (f"{m}::RwLockHistogram", f"{m}::RwLockHistogram::new(3, 20)"),
            "LazyCounter": (f"{m}::LazyCounter", f"{m}::LazyCounter::new({m}::Counter::default)"),
            "LazyGauge": (f"{m}::LazyGauge", f"{m}::LazyGauge::new(|| {m}::Gauge::new())"),
            "Lazy": (f"{m}::Lazy<{m}_fmt::Custom>", f"{m}::Lazy::new(|| {m}_fmt::Custom::new())"),
            "Custom": (f"{m}_fmt::Custom", f"{m}_fmt::Custom::new()"),
            "Zero": (f"{m}_fmt::Zero", f"{m}_fmt::Zero"),
            "Wrap": (f"{m}_fmt::Wrap<{m}::Counter, 3>", f"{{ let w = {m}_fmt::Wrap({m}::Counter::new()); w }}"),
            "Const": (f"{m}::Counter", f"{m}::Counter::with_value(77)"),
            "Own": (f"{m}_fmt::Own", f"{m}_fmt::Own::new()"),
        }[self.type]
        return f"static {self.ident}: {t} = {e};"

    def direct_source(self):
        """What the attribute stands for, written out."""
        have = dict(self.args)
        default = "::metriken_core::default_formatter"
        pairs = ", ".join(self.direct_items)
        return (f"{self.vis}{self.static()}\n::metriken_core::declare_metric_v1! {{ metric: {self.ident}, "
                f"name: {have.get('name', plain(self.ident))}, "
                f"description: {'Some(' + have['description'] + ')' if 'description' in have else 'None'}, "
                f"metadata: {{ {pairs} }}, formatter: {have.get('formatter', default)} }}")

    def source(self, args=None):
        if self.direct:
            return self.direct_source()
        a, d = self.attribute(args), self.doc
        head = d + a + "\n" if self.doc_first else a + "\n" + d
        return self.absent + head + self.vis + self.static()

    def touch(self):
        """Statements giving the metric its value of round k."""
        i, v = self.ident, f"({self.id} * 1000 + k)"
        return {
            "Counter": f"{i}.set({v});", "Gauge": f"{i}.set(-({v} as i64));",
            "AtomicHistogram": f"{i}.increment({v}).unwrap();",
            "RwLockHistogram": f"{i}.update_from(&vec![{v}; {i}.config().total_buckets()]).unwrap();",
            "LazyCounter": f"if k > 1 {{ {i}.set({v}); }}", "LazyGauge": f"if k > 1 {{ {i}.set({v} as i64); }}",
            "Lazy": f"if k > 1 {{ {i}.0.store({v}, std::sync::atomic::Ordering::SeqCst); }}",
            "Custom": f"{i}.0.store({v}, std::sync::atomic::Ordering::SeqCst);",
            "Own": f"{i}.0.store({v}, std::sync::atomic::Ordering::SeqCst);",
            "Zero": "", "Wrap": f"{i}.0.set({v});", "Const": "",
        }[self.type] + (f" extern \"C\" {{ #[link_name = \"{self.symbol}\"] static SYM: u8; }} "
                        f"assert!(std::ptr::addr_of!({i}) as *const u8 == unsafe {{ std::ptr::addr_of!(SYM) }}, \"{i} is not exported\");"
                        if self.symbol and not self.direct else "") + f" out.push(({self.id}, &{i}));"

    def value(self, k):
        v = self.id * 1000 + k
        lazy = "none" if k < 2 else None
        return {
            "Counter": f"c{v}", "Gauge": f"g{-v}", "LazyCounter": lazy or f"c{v}", "LazyGauge": lazy or f"g{v}",
            "Lazy": lazy or f"c{v}", "Custom": f"c{v}", "Own": f"c{v}", "Zero": "g-5", "Wrap": f"c{v}", "Const": "c77",
            "AtomicHistogram": f"h4/32/{k}", "RwLockHistogram": f"r3/20/{v}",
        }[self.type]

    def form(self):
        """What kind of declaration this is, for counting distinct ones."""
        return (self.type, self.where, tuple(k for k, _ in self.args), len(self.metadata or ()), self.attr,
                self.vis, bool(self.doc), self.direct)


SUPPORT = r'''
#[allow(dead_code)]
pub mod ROOT_fmt {
    use super::ROOT;
    use ROOT::{Format, Metric, MetricEntry, Value};
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    pub struct Custom(pub AtomicU64);
    impl Custom { pub const fn new() -> Self { Custom(AtomicU64::new(0)) } }
    impl Metric for Custom {
        fn as_any(&self) -> Option<&dyn std::any::Any> { Some(self) }
        fn value(&self) -> Option<Value<'_>> { Some(Value::Counter(self.0.load(SeqCst))) }
    }
    /// Has metadata, and other data, of its own.
    pub struct Own(pub AtomicU64, std::sync::OnceLock<ROOT::Metadata>, u16);
    impl Own { pub const fn new() -> Self { Own(AtomicU64::new(0), std::sync::OnceLock::new(), 31) } }
    impl Metric for Own {
        fn as_any(&self) -> Option<&dyn std::any::Any> { Some(self) }
        fn value(&self) -> Option<Value<'_>> { Some(Value::Counter(self.0.load(SeqCst))) }
        fn provide<'a>(&'a self, request: &mut metriken_core::Request<'a>) {
            let own = || ROOT::Metadata::from(std::collections::HashMap::from([("own".to_string(), "data".to_string())]));
            request.provide_ref(&self.2).provide_ref(self.1.get_or_init(own));
        }
    }
    pub struct Zero;
    impl Metric for Zero {
        fn as_any(&self) -> Option<&dyn std::any::Any> { Some(self) }
        fn value(&self) -> Option<Value<'_>> { Some(Value::Gauge(-5)) }
    }
    pub struct Wrap<T, const N: usize>(pub T);
    impl<T: Metric, const N: usize> Metric for Wrap<T, N> {
        fn as_any(&self) -> Option<&dyn std::any::Any> { Some(self) }
        fn value(&self) -> Option<Value<'_>> { self.0.value() }
    }
    pub fn a(m: &MetricEntry, f: Format) -> String { show("A", m, f) }
    pub fn b(m: &MetricEntry, f: Format) -> String { show("B", m, f) }
    pub struct Style;
    impl Style { pub fn a<const N: usize>(m: &MetricEntry, f: Format) -> String { show("A", m, f) } }
    pub trait Styled { fn a(m: &MetricEntry, f: Format) -> String { show("A", m, f) } }
    impl Styled for Style {}
    fn show(t: &str, m: &MetricEntry, f: Format) -> String {
        let k = match f { Format::Simple => "simple", Format::Prometheus => "prometheus", _ => "?" };
        format!("{t} {k} {}", m.name())
    }
}
'''

MAIN = r'''
fn hex(s: &str) -> String { s.bytes().map(|b| format!("{b:02x}")).collect() }

fn list(k: u64, own: &[(u64, &'static dyn metriken::Metric)]) {
    use metriken::{Format, Value};
    let all = metriken::metrics();
    println!("dynamic {k} {}", all.dynamic_metrics().count());
    for e in all.static_metrics() {
        let value = match e.value() {
            None => "none".to_string(),
            Some(Value::Counter(v)) => format!("c{v}"),
            Some(Value::Gauge(v)) => format!("g{v}"),
            Some(Value::Other(o)) => {
                if let Some(h) = o.downcast_ref::<metriken::AtomicHistogram>() {
                    let n: u64 = h.load().map_or(0, |h| h.as_slice().iter().sum());
                    format!("h{}/{}/{n}", h.config().grouping_power(), h.config().max_value_power())
                } else if let Some(h) = o.downcast_ref::<metriken::RwLockHistogram>() {
                    let n = h.load().map_or(0, |h| h.as_slice()[0]);
                    format!("r{}/{}/{n}", h.config().grouping_power(), h.config().max_value_power())
                } else { "other".to_string() }
            }
            _ => "?".to_string(),
        };
        let meta: Vec<String> = e.metadata().iter().map(|(a, b)| format!("{}={}", hex(a), hex(b))).collect();
        let who: Vec<String> = own.iter().filter(|(_, m)| e.is(*m)).map(|(i, _)| i.to_string()).collect();
        println!("entry {k} n{} {} {} m{} w{} s{} p{}", hex(e.name()),
            e.description().map_or("-".to_string(), |d| format!("d{}", hex(d))), value, meta.join(","),
            who.join(","), hex(&e.formatted(Format::Simple)), hex(&e.formatted(Format::Prometheus)));
    }
    println!("end {k}");
}
'''


class Program:
    def __init__(self, seed, size, bulk=0):
        self.r = random.Random(seed)
        self.bulk = bulk
        self.decls = []
        self.touches = {"app": [], "dep1": [], "dep2": []}
        self.size = size

    def decl(self, where, root="metriken", ident=None, touched=True, **kw):
        r = self.r
        while True:
            ident = ident or r.choice(["COUNTER", "FOO_1", "lower_case", "_X", "M\u00c9TRIC", "A", "METRIC_WITH_A_LONG_NAME",
                                       "Mixed", "TOTAL", f"M{r.randint(0, 999)}"])
            d = Decl(r, ident, root, **kw)
            # Without an instance to tell them apart names must do that.
            if not touched or d.type == "Zero":
                if d.name is None:
                    continue
                u = f"{d.name}#{len(self.decls)}"
                d.args = [(a, literal(u, r) if a == "name" else x) for a, x in d.args]
                d.name = u
            break
        d.id, d.where, d.touched = len(self.decls), where, touched
        d.direct = not kw and where not in ("macro", "macro of another crate") and r.random() < 0.15
        self.decls.append(d)
        return d

    def item(self, depth, crate):
        """One item holding declarations; returns (source, touch paths)."""
        r = self.r
        n = len(self.decls)
        root = "renamed_metrics" if crate == "dep1" else "metriken"
        kw = {}
        if r.random() < 0.15:
            kw["crate_arg"] = r.choice([root, "::" + root])
        elif crate != "dep1" and r.random() < 0.15:
            kw["crate_arg"] = r.choice(["crate::bonus", "crate::bonus::deeper::again"])
            kw["attr"] = "crate::bonus::metric"
        sig = f"(k: u64, out: &mut Vec<(u64, &'static dyn {root}::Metric)>)"
        how = r.choice(["plain", "plain", "plain", "module", "fn", "generic", "method", "twice", "closure", "const",
                        "macro", "trait", "exported"])
        if how == "module" and depth < 3:
            inner, paths = [], []
            for _ in range(r.randint(1, 4)):
                s, p = self.item(depth + 1, crate)
                inner.append(s)
                paths += p
            name = f"m{n}_{depth}_{r.randint(0, 1 << 30)}"
            head = "use crate::*;\n" if depth == 0 or True else ""
            return f"pub mod {name} {{\n#[allow(unused_imports)] {head}" + "\n".join(inner) + "}\n", \
                [f"{name}::{p}" for p in paths]
        if how == "const":
            d = self.decl("const block", root, touched=False, **kw)
            return f"const _: () = {{ {d.source()} }};\n", []
        if how == "generic":
            d = self.decl("generic fn", root, touched=False, **kw)
            return f"#[allow(dead_code)] pub fn g{d.id}<T: Default>() -> T {{ {d.source()}\n let _ = &{d.ident}; T::default() }}\n", []
        if how == "fn":
            d = self.decl("function", root, **kw)
            return f"pub fn t{d.id}{sig} {{ if k > 0 {{ {d.source()}\n {d.touch()} }} }}\n", [f"t{d.id}"]
        if how == "twice":
            d = self.decl("block", root, **kw)
            e = self.decl("block", root, ident=d.ident, **kw)
            return f"pub fn t{d.id}{sig} {{ {{ {d.source()}\n {d.touch()} }} {{ {e.source()}\n {e.touch()} }} }}\n", [f"t{d.id}"]
        if how == "closure":
            d = self.decl("closure", root, **kw)
            return f"pub fn t{d.id}{sig} {{ let mut f = |k: u64| {{ {d.source()}\n {d.touch()} }}; f(k); }}\n", [f"t{d.id}"]
        if how == "method":
            d = self.decl("method", root, **kw)
            return f"pub struct S{d.id}; impl S{d.id} {{ pub fn t{sig} {{ {d.source()}\n {d.touch()} }} }}\n", [f"S{d.id}::t"]
        if how == "trait":
            d = self.decl("trait default method", root, **kw)
            return (f"pub trait T{d.id} {{ fn t{sig} {{ {d.source()}\n {d.touch()} }} }} impl T{d.id} for () {{}}\n"
                    f"pub fn t{d.id}{sig} {{ <() as T{d.id}>::t(k, out) }}\n"), [f"t{d.id}"]
        if how == "macro":
            out, paths = "", []
            # Arguments that come in through macro variables.
            name = f"mac{n}_{r.randint(0, 1 << 30)}"
            out += (f"macro_rules! {name} {{ ($i:ident, $n:expr, $k:literal) => {{ #[{root}::metric(name = $n, "
                    f"metadata = {{ key = $k }})] static $i: {root}::Counter = {root}::Counter::new(); }} }}\n")
            for _ in range(r.randint(1, 3)):
                d = self.decl("macro", root)
                d.type, d.ident, d.formatter, d.description, d.symbol = "Counter", f"MAC{d.id}", None, None, False
                d.name, d.metadata, d.args = f"mac.{d.id}", {"key": text(r)}, [("name", ""), ("metadata", "")]
                out += f"{name}!({d.ident}, {literal(d.name, r)}, {literal(d.metadata['key'], r)});\n"
                out += f"pub fn t{d.id}{sig} {{ {d.touch()} }}\n"
                paths.append(f"t{d.id}")
            return out, paths
        if how == "exported" and crate == "app":
            d = self.decl("macro of another crate", root)
            d.type, d.ident, d.formatter, d.description, d.symbol = "Counter", f"EXP{d.id}", None, f"d{d.id}", False
            d.name, d.metadata, d.args = None, None, [("crate", ""), ("description", "")]
            return (f"dep2::declare!({d.ident}, {literal(d.description, r)});\npub fn t{d.id}{sig} {{ {d.touch()} }}\n",
                    [f"t{d.id}"])
        d = self.decl("module" if depth else "crate root", root, ident=f"S{n}" if depth == 0 else f"A{n}", **kw)
        return d.source() + f"\npub fn t{d.id}{sig} {{ {d.touch()} }}\n", [f"t{d.id}"]

    def many(self, root):
        """Counters in great number: a listing has no room limit."""
        out, touch = [], []
        for _ in range(self.bulk):
            d = self.decl("in bulk", root)
            d.type, d.ident, d.formatter, d.description, d.direct = "Counter", f"BULK{d.id}", None, None, False
            d.name, d.metadata, d.args = None, None, []
            d.vis, d.doc, d.symbol = "", "", False
            out.append(f"#[{root}::metric] static {d.ident}: {root}::Counter = {root}::Counter::new();")
            touch.append(d.touch())
        return ("\n".join(out) + f"\npub fn bulk(k: u64, out: &mut Vec<(u64, &'static dyn {root}::Metric)>) {{\n"
                + "\n".join(touch) + "\n}\n", ["bulk"])

    def crate(self, name, count):
        root = "renamed_metrics" if name == "dep1" else "metriken"
        parts, paths, start = [], [], len(self.decls)
        while len(self.decls) - start < count:
            s, p = self.item(0, name)
            parts.append(s)
            paths += p
        if name == "app" and self.bulk:
            s, p = self.many(root)
            parts.append(s)
            paths += p
        src = "#![allow(warnings)]\n"
        if name == "dep1":
            src += "pub use renamed_metrics;\n"
        if name == "dep2":
            src += ("pub use metriken;\n#[macro_export] macro_rules! declare { ($i:ident, $d:expr) => { "
                    "#[$crate::metriken::metric(description = $d, crate = $crate::metriken)] "
                    "static $i: $crate::metriken::Counter = $crate::metriken::Counter::new(); } }\n")
        if name == "app":
            src += "pub use metriken;\n"
        if name != "dep1":
            src += "pub mod bonus { pub use metriken::*; pub mod deeper { pub mod again { pub use metriken::*; } } }\n"
        src += SUPPORT.replace("ROOT", root) + "\n".join(parts)
        src += f"\npub fn touch_all(k: u64, out: &mut Vec<(u64, &'static dyn {root}::Metric)>) {{\n"
        src += "".join(f"  {p}(k, out);\n" for p in paths) + "}\n"
        if name == "app":
            src += MAIN + ("fn main() { for k in 1..4 { let mut own = Vec::new(); touch_all(k, &mut own); "
                           "dep1::touch_all(k, &mut own); dep2::touch_all(k, &mut own); list(k, &own); } }\n")
        return src

    def write(self, d):
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(SKELETON, d, ignore=shutil.ignore_patterns("target"))
        for name, part in (("dep1", 0.2), ("dep2", 0.2), ("app", 0.6)):
            f = "main.rs" if name == "app" else "lib.rs"
            with open(f"{d}/{name}/src/{f}", "w") as o:
                o.write(self.crate(name, int(self.size * part)))

    def judge(self, out):
        """None, or how the listing differs from what was declared."""
        unhex = lambda s: bytes.fromhex(s).decode()
        for k in (1, 2, 3):
            if f"\ndynamic {k} 0\n" not in "\n" + out:
                return f"round {k}: dynamic metrics listed in a program without any"
            if f"\nend {k}\n" not in out:
                return f"round {k}: listing incomplete"
            rows, seen = [], {}
            for line in out.splitlines():
                if line.startswith(f"entry {k} "):
                    n, d, v, m, w, s, p = line.split(" ")[2:]
                    pairs = [tuple(map(unhex, x.split("="))) for x in m[1:].split(",")] if m[1:] else []
                    rows.append(dict(name=unhex(n[1:]), description=None if d == "-" else unhex(d[1:]), value=v,
                                     pairs=pairs, who=[int(x) for x in w[1:].split(",")] if w[1:] else [],
                                     simple=unhex(s[1:]), prometheus=unhex(p[1:])))
            by_name = {d.shown_name: d for d in self.decls if not d.touched or d.type == "Zero"}
            for row in rows:
                who = [i for i in row["who"] if self.decls[i].type != "Zero"]
                if len(who) > 1:
                    return f"entry {row['name']!r} identifies with several statics {who}"
                d = self.decls[who[0]] if who else by_name.get(row["name"])
                if d is None:
                    return f"entry {row} belongs to no declaration"
                if d.id in seen:
                    return f"static {d.ident} ({d.where}) is listed twice"
                seen[d.id] = row
            for d in self.decls:
                row = seen.get(d.id)
                if row is None:
                    return f"static {d.ident} ({d.where}, {d.type}) is not listed: {d.source()}"
                want = dict(name=d.shown_name, description=d.description)
                if d.touched or d.type in ("Const", "Zero"):
                    want["value"] = d.value(k)
                if d.formatter:
                    want["simple"] = f"{d.formatter} simple {d.shown_name}"
                    want["prometheus"] = f"{d.formatter} prometheus {d.shown_name}"
                else:
                    want["simple"] = d.shown_name
                for f, w in want.items():
                    if row[f] != w:
                        return f"static {d.ident} ({d.where}, {d.type}): {f} is {row[f]!r}, declared {w!r}: {d.source()}"
                if sorted(row["pairs"]) != sorted((d.metadata or {}).items()):
                    return f"static {d.ident}: metadata {sorted(row['pairs'])}, declared {sorted((d.metadata or {}).items())}"
        return None


def listing(prop, seed, tier):
    """C08."""
    started = time.time()
    thorough = tier == "thorough"
    rounds = 8 if thorough else 2
    o = outcome("generated-programs", "held", evaluations=0, distinct=0, counters={}, samples=[])
    forms = set()
    for n in range(rounds):
        bulk = 0 if n % 2 == 0 else random.Random(f"{seed}/{n}/bulk").randint(*((1500, 5000) if thorough else (1030, 1400)))
        prog = Program(f"{seed}/{n}", 400 if thorough else 180, bulk)
        d = os.path.join(legs.BUILD, "decl", "src")
        prog.write(d)
        profiles = (["dev", "release", "thin", "lto"] if n % 4 == 3 else ["dev", "release"]) if thorough else \
            (["dev"] if n == 0 else ["release"])
        for profile in profiles:
            target = os.path.join(legs.BUILD, "decl", "target")
            p = legs.cargo(["build", "--offline", "--locked", "--quiet", "--manifest-path", f"{d}/Cargo.toml",
                            "--target-dir", target, "--profile", profile])
            if p.rc != 0:
                own = re.search(r"could not compile `(app|dep1|dep2)`", p.err)
                status = "violation" if own else "inconclusive"
                msg = "a program of well-formed declarations does not build" if own else "build failed"
                o.update(status=status, message=msg, detail=p.err[:6000], where=f"phase=program case={n}")
                break
            r = legs.run([f"{target}/{'debug' if profile == 'dev' else profile}/app"], 120)
            bad = prog.judge(r.out) if r.rc == 0 else f"the program ended with {r.rc}: {r.err[-500:]}"
            o["evaluations"] += len(prog.decls)
            o["counters"][f"declarations_{profile}"] = o["counters"].get(f"declarations_{profile}", 0) + len(prog.decls)
            o["counters"]["entries_observed"] = o["counters"].get("entries_observed", 0) + r.out.count("\nentry ")
            if bad:
                o.update(status="violation", message=f"program {n} ({profile}): {bad}", detail=bad,
                         where=f"phase=program case={n}")
                break
        forms |= {x.form() for x in prog.decls}
        o["samples"] += [x.source()[:400] for x in prog.decls[5:8]] if n == 0 else []
        if o["status"] != "held":
            break
    o.update(distinct=len(forms), wall_s=round(time.time() - started, 1),
             command=f"VERIF_SEED={seed} python3 check.py {prop} {tier}")
    return o


# ------------------------------------------------------------------------ C23

def spoil(d, r):
    """A malformed variant of a well-formed declaration: (what, source)."""
    args = list(d.args)
    have = dict(args)
    ways = ["unknown", "unknown", "double comma", "leading comma", "not a static", "no metric"]
    if args:
        ways += ["twice", "twice", "twice", "no value", "no equals", "colon", "call", "word", "string argument"]
    if len(args) > 1:
        ways += ["no comma", "semicolon"]
    if d.metadata:
        ways += ["key twice"] * 6 + ["meta number key", "meta no value", "meta no equals", "meta colon", "meta path key"]
    if d.metadata and len(d.metadata) > 1:
        ways += ["meta no comma", "meta double comma"]
    if "metadata" in have:
        ways += ["meta brackets", "meta parens", "meta value"]
    if "name" in have:
        ways += ["name type"]
    if "description" in have:
        ways += ["description type"]
    if "formatter" in have:
        ways += ["formatter type"]
    way = r.choice(ways)

    def attr(inner):
        return f"#[{d.attr}({inner})]\n{d.vis}{d.static()}"
    join = lambda a: ", ".join(f"{k} = {v}" for k, v in a)

    def meta(items):
        return attr(join([(k, items if k == "metadata" else v) for k, v in args]))
    if way == "twice":
        k, v = r.choice(args)
        other = {"name": literal(text(r), r), "description": literal(text(r), r), "metadata": "{ other = \"x\" }",
                 "formatter": "metriken::default_formatter", "crate": "metriken"}[k]
        at = r.randint(0, len(args))
        # Whether or not the repetition says the same.
        return way, attr(join(args[:at] + [(k, r.choice([v, other]))] + args[at:]))
    if way == "unknown":
        k = r.choice(["nam", "names", "desc", "label", "unit", "Name", "NAME", "metadatas", "format", "krate", "r#name2",
                      "static_name", "namespace", word(r) + "q", "help", "type_", "descriptions"])
        at = r.randint(0, len(args))
        return way, attr(join(args[:at] + [(k, r.choice(['"x"', "{ a = \"b\" }", "5"]))] + args[at:]))
    if way == "double comma":
        return way, attr(join(args) + ",," + (join([("bogus", '"x"')]) if not args else ""))
    if way == "leading comma":
        return way, attr(", " + join(args or [("name", '"x"')]))
    if way == "not a static":
        what = r.choice(["const {i}: metriken::Counter = metriken::Counter::new();", "fn {i}() {{}}", "struct {i};",
                         "mod {i} {{}}", "type {i} = metriken::Counter;", "enum {i} {{ A }}", "use metriken as {i};"])
        return way, d.attribute() + "\n" + what.format(i=d.ident)
    if way == "no metric":
        t = r.choice([("u64", "5"), ("&str", '"x"'), ("std::sync::atomic::AtomicU64", "std::sync::atomic::AtomicU64::new(0)"),
                      ("Option<metriken::Counter>", "None")])
        return way, d.attribute() + f"\nstatic {d.ident}: {t[0]} = {t[1]};"
    if way in ("no value", "no equals", "colon", "call", "word", "string argument"):
        i = r.randrange(len(args))
        k, v = args[i]
        text_ = {"no value": f"{k} =", "no equals": f"{k} {v}", "colon": f"{k}: {v}", "call": f"{k}({v})", "word": k,
                 "string argument": f'"{k}" = {v}'}[way]
        return way, attr(", ".join([f"{a} = {b}" for a, b in args[:i]] + [text_] + [f"{a} = {b}" for a, b in args[i + 1:]]))
    if way in ("no comma", "semicolon"):
        # Between a literal and the next argument.
        a = [(k, '"x"' if k in ("name", "description") else v) for k, v in args]
        return way, attr((" " if way == "no comma" else "; ").join(f"{k} = {v}" for k, v in a))
    items = list(getattr(d, "meta_items", []))
    if way == "key twice":
        k = r.choice(list(d.metadata))
        spellings = [literal(k, r), plain(k), plain(k, r)] + ([k] if ident_ok(k) else [])
        at = r.randint(0, len(items))
        v = r.choice([literal(d.metadata[k], r), literal(text(r), r)])
        items.insert(at, f"{r.choice(spellings)} = {v}")
        return way, meta("{ " + ", ".join(items) + r.choice(["", ","]) + " }")
    if way == "meta number key":
        return way, meta("{ " + ", ".join(items + [r.choice(["5", "'c'", "true", "1.5", "b\"x\""]) + ' = "v"']) + " }")
    if way == "meta no value":
        return way, meta("{ " + ", ".join(items + [r.choice(["k =", "k", '"k"', '"k" ='])]) + " }")
    if way == "meta no equals":
        return way, meta("{ " + ", ".join(items + ['kk "v"']) + " }")
    if way == "meta colon":
        return way, meta("{ " + ", ".join(items + [r.choice(['kk: "v"', '"kk" => "v"', 'kk == "v"'])]) + " }")
    if way == "meta path key":
        return way, meta("{ " + ", ".join(items + [r.choice(['a::b = "v"', 'a.b = "v"', 'a-b = "v"', 'concat!("a") = "v"'])]) + " }")
    if way == "meta no comma":
        return way, meta("{ " + " ".join(f"k{i} = \"v\"" for i in range(2)) + " }")
    if way == "meta double comma":
        return way, meta("{ " + ",, ".join(items) + " }")
    if way == "meta brackets":
        return way, meta("[ " + ", ".join(items) + " ]")
    if way == "meta parens":
        return way, meta("( " + ", ".join(items) + " )")
    if way == "meta value":
        return way, meta("{ kk = " + r.choice(["5", "None", "'c'", "String::new()", "b\"x\"", "{}"]) + " }")
    bad = {"name type": r.choice(["5", "String::new()", "b\"x\"", "None", "'c'"]),
           "description type": r.choice(["5", "String::new()", "None", "Some(\"x\")"]),
           "formatter type": r.choice(["5", "\"x\"", "|x| x", "std::mem::drop::<u8>", "|m, f, g| String::new()"])}[way]
    k = way.split()[0]
    return way, attr(join([(a, bad if a == k else v) for a, v in args]))


class Compiler:
    """rustc against the libraries built from /repo's current tree."""

    def __init__(self, name, head):
        self.head = head
        self.d = d = os.path.join(legs.BUILD, "decl", name)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(SKELETON, d, ignore=shutil.ignore_patterns("target"))
        open(f"{d}/dep1/src/lib.rs", "w").close()
        open(f"{d}/dep2/src/lib.rs", "w").close()
        with open(f"{d}/app/src/main.rs", "w") as f:
            f.write("fn main() {}\n")
        target = os.path.join(legs.BUILD, "decl", "target")
        p = legs.cargo(["build", "--offline", "--locked", "--message-format=json", "--manifest-path", f"{d}/Cargo.toml",
                        "--target-dir", target])
        rlib, core = None, None
        for line in p.out.splitlines():
            if '"compiler-artifact"' in line:
                m = json.loads(line)
                if m["target"]["name"] == "metriken":
                    rlib = next((f for f in m["filenames"] if f.endswith(".rlib")), None)
                if m["target"]["name"].replace("-", "_") == "metriken_core":
                    core = next((f for f in m["filenames"] if f.endswith(".rlib")), None)
        self.ok, self.err, self.rlib, self.core = p.rc == 0 and rlib and core, p.err, rlib, core
        self.work = os.path.join(d, "snippets")
        os.makedirs(self.work)

    def rustc(self, n, src):
        f = os.path.join(self.work, f"{n}.rs")
        with open(f, "w") as h:
            h.write(self.head + src + "\n")
        lib = os.path.dirname(self.rlib)
        return legs.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", f"s{n}", "--emit", "metadata",
                         "--out-dir", self.work, "-L", f"dependency={lib}/deps", "-L", f"dependency={lib}",
                         "--extern", f"metriken={self.rlib}", "--extern", f"metriken_core={self.core}", f], 120,
                        legs.env(CARGO_MANIFEST_DIR=f"{self.d}/app"))

    def fail(self, o, what, src, err):
        with open(os.path.join(self.work, "witness.rs"), "w") as h:
            h.write(self.head + src + "\n")
        o.update(status="violation", message=f"{what}: {src}"[:3000], detail=src + "\n" + err[-3000:],
                 where="phase=declarations case=0")

    def close(self):
        for f in os.listdir(self.work):
            if f != "witness.rs":
                os.remove(os.path.join(self.work, f))


def compile_time(prop, seed, tier):
    """C23."""
    started = time.time()
    thorough = tier == "thorough"
    o = outcome("compiler", "held", evaluations=0, distinct=0, counters={}, samples=[])
    o["command"] = f"VERIF_SEED={seed} python3 check.py {prop} {tier}"
    c = Compiler("accept", "#![allow(warnings)]\n#![deny(non_upper_case_globals)]\n" + SUPPORT.replace("ROOT", "metriken").replace("use super::metriken;", "") +
                 "mod bonus { pub use metriken::*; }\n")
    if not c.ok:
        o.update(status="inconclusive", message="build failed", detail=c.err[-6000:])
        return o
    rustc = c.rustc

    def fail(what, src, err):
        c.fail(o, what, src, err)

    p = rustc("head", "")
    if p.rc != 0:
        o.update(status="inconclusive", message="the supporting code does not compile", detail=p.err[-6000:])
        return o
    r = random.Random(f"{seed}/accept")
    total = 3000 if thorough else 240
    kinds = {"crate_arg": ["metriken", "::metriken", "crate::bonus"]}
    good = []
    for i in range(total):
        x = Decl(r, f"M{i}", crate_arg=r.choice([None, None, None] + kinds["crate_arg"]))
        x.where = "compiler"
        good.append(x)
    # All arguments in every order.
    import itertools
    every = [("name", '"n"'), ("description", '"d"'), ("metadata", '{ a = "b", "c" = "d", }'), ("formatter", "metriken_fmt::a"),
             ("crate", "metriken")]
    for i, perm in enumerate(itertools.permutations(every)):
        for cut in ((len(every),) if not thorough else (1, 2, 3, 4, 5)):
            x = Decl(r, f"P{i}_{cut}")
            x.args, x.metadata, x.meta_items, x.formatter, x.where = list(perm[:cut]), None, [], None, "compiler"
            good.append(x)
    chunk = 60
    jobs = [good[i:i + chunk] for i in range(0, len(good), chunk)]
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for i, (group, p) in enumerate(zip(jobs, ex.map(
                lambda a: rustc(f"g{a[0]}", "\n".join(x.source() for x in a[1])), enumerate(jobs)))):
            if p.rc == 0:
                continue
            for j, x in enumerate(group):
                q = rustc(f"g{i}_{j}", x.source())
                if q.rc != 0:
                    fail("a well-formed declaration does not compile", x.source(), q.err)
                    break
            else:
                fail("well-formed declarations do not compile together", "\n".join(x.source() for x in group)[:1500], p.err)
            break
    o["evaluations"] += len(good)
    o["counters"]["accepted"] = len(good)
    if o["status"] == "held":
        r = random.Random(f"{seed}/reject")
        bad, seen = [], set()
        want = 4000 if thorough else 420
        while len(bad) < want:
            x = r.choice([y for y in good[:total] if not y.lint])
            way, src = spoil(x, r)
            if src not in seen:
                seen.add(src)
                bad.append((way, src))
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            for (way, src), p in zip(bad, ex.map(lambda a: rustc(f"b{a[0]}", a[1][1]), enumerate(bad))):
                if p.rc == 0:
                    fail(f"a malformed declaration compiles ({way})", src, p.err)
                    break
                if p.rc != 1 or "error" not in p.err or "internal compiler error" in p.err:
                    o.update(status="inconclusive", message=f"rustc ended with {p.rc}", detail=src + p.err[-2000:])
                    break
                o["evaluations"] += 1
                o["counters"][f"refused: {way}"] = o["counters"].get(f"refused: {way}", 0) + 1
        o["samples"] = [s[:300] for _, s in bad[:5]]
        o["distinct"] = len({(w, re.sub(r"\"[^\"]*\"|M\d+", "", s)) for w, s in bad}) + len({x.form() for x in good})
    c.close()
    o["wall_s"] = round(time.time() - started, 1)
    return o


# Pairs of programs for C07: the first is sound and has to compile (or nothing
# is concluded), the second would let safe code reach a dead, moved or racing
# metric and must not.
UNSOUND_HEAD = """#![allow(warnings)]
#![forbid(unsafe_code)]
use metriken::*;
use std::any::Any;
use std::cell::Cell;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::AtomicU64;
use std::sync::{Arc, MutexGuard};
"""
IMPL = "impl Metric for M { fn as_any(&self) -> Option<&dyn Any> { None } fn value(&self) -> Option<Value<'_>> { None } }"


def escape(expr):
    """A reference taken from an open listing, used within or after it."""
    use = "fn touch<T>(_: T) {} fn f() { let x; { let all = metrics(); x = %s; %s } %s }"
    return use % (expr, "touch(x);", ""), use % (expr, "", "touch(x);")


FIRST = "all.dynamic_metrics().next().unwrap()"
UNSOUND = {
    "a metric that is not Sync": ("struct M(AtomicU64);" + IMPL, "struct M(Cell<u64>);" + IMPL),
    "a metric that is not Send": ("struct M(Arc<u64>);" + IMPL, "struct M(MutexGuard<'static, ()>);" + IMPL),
    "a metric that borrows": (
        "struct M<'a>(&'a u64);" + IMPL.replace("for M", "for M<'static>"),
        "struct M<'a>(&'a u64);" + IMPL.replace("impl", "impl<'a>", 1).replace("for M", "for M<'a>")),
    "attached data that is not Sync": ("fn f() { MetricBuilder::new(\"m\").provide(Arc::new(1u8)); }",
                                       "fn f() { MetricBuilder::new(\"m\").provide(Cell::new(1u8)); }"),
    "attached data that is not Send": ("fn f(g: &'static u8) { MetricBuilder::new(\"m\").provide(g); }",
                                       "fn f(g: MutexGuard<'static, u8>) { MetricBuilder::new(\"m\").provide(g); }"),
    "attached data that borrows": ("fn f(g: &'static u8) { MetricBuilder::new(\"m\").provide(g); }",
                                   "fn f(g: &u8) { MetricBuilder::new(\"m\").provide(g); }"),
    "a metric type without thread safety in a lazy": (
        "static L: Lazy<Counter> = Lazy::new(Counter::new);", "static L: Lazy<Cell<u8>> = Lazy::new(|| Cell::new(1));"),
    "a lazy initialiser bound to its thread, shared": (
        "fn f() -> impl Sync { let n = 5; Lazy::<Counter, _>::new(move || Counter::with_value(n)) }",
        "fn f() -> impl Sync { let n = Rc::new(5); Lazy::<Counter, _>::new(move || Counter::with_value(*n)) }"),
    "an entry after its listing": escape(FIRST),
    "an entry of the full listing after it": escape("all.iter().last().unwrap()"),
    "an entry by reference iteration after its listing": escape("(&all).into_iter().last().unwrap()"),
    "a dynamic iterator after its listing": escape("all.dynamic_metrics()"),
    "an iterator after its listing": escape("all.iter()"),
    "a metric after its listing": escape(FIRST + ".metric()"),
    "a dereferenced entry after its listing": escape("&**" + FIRST),
    "a name after its listing": escape(FIRST + ".name()"),
    "a description after its listing": escape(FIRST + ".description()"),
    "metadata after its listing": escape(FIRST + ".metadata()"),
    "a metadata iterator after its listing": escape(FIRST + ".metadata().iter()"),
    "a metadata value after its listing": escape(FIRST + ".metadata().get(\"k\")"),
    "attached data after its listing": escape(FIRST + ".request_ref::<u64>()"),
    "a metric as Any after its listing": escape(FIRST + ".as_any()"),
    "a value after its listing": escape(FIRST + ".value()"),
    "a metric after its owner": (
        "fn touch<T>(_: T) {} fn f() { let x: &Counter; let m = MetricBuilder::new(\"m\").build(Counter::new()); x = &m; touch(x); }",
        "fn touch<T>(_: T) {} fn f() { let x: &Counter; { let m = MetricBuilder::new(\"m\").build(Counter::new()); x = &m; } touch(x); }"),
    "a value after its metric": (
        "fn touch<T>(_: T) {} fn f() { let x; let m = AtomicHistogram::new(3, 9); x = Metric::value(&m); touch(x); }",
        "fn touch<T>(_: T) {} fn f() { let x; { let m = AtomicHistogram::new(3, 9); x = Metric::value(&m); } touch(x); }"),
    "requested data after its metric": (
        "fn touch<T>(_: T) {} fn f() { let x; let m = Counter::new(); x = metriken_core::request_ref::<u8>(&m); touch(x); }",
        "fn touch<T>(_: T) {} fn f() { let x; { let m = Counter::new(); x = metriken_core::request_ref::<u8>(&m); } touch(x); }"),
    "a boxed metric moved out": (
        "fn f(m: DynBoxedMetric<Counter>) { let c: &Counter = &*m; }",
        "fn f(m: DynBoxedMetric<Counter>) { let c: Counter = *m; }"),
    "a boxed metric as mutable": (
        "fn f(mut m: DynBoxedMetric<Counter>) { let c: &Counter = &*m; }",
        "fn f(mut m: DynBoxedMetric<Counter>) { let c: &mut Counter = &mut *m; }"),
    "a pinned metric as mutable": (
        "fn f(m: Pin<&mut DynPinnedMetric<Counter>>) { let c: &Counter = &**m; }",
        "fn f(mut m: Pin<&mut DynPinnedMetric<Counter>>) { let c: &mut Counter = &mut **m; }"),
    "registering without pinning": (
        "fn f(m: Pin<&DynPinnedMetric<Counter>>, e: MetricEntry) { m.register(e); }",
        "fn f(m: &DynPinnedMetric<Counter>, e: MetricEntry) { m.register(e); }"),
    "pinning without staying": (
        "fn f(m: &DynPinnedMetric<Counter>, e: MetricEntry) {}",
        "fn f(m: &DynPinnedMetric<Counter>, e: MetricEntry) { Pin::new(m).register(e); }"),
    "unpinning": (
        "fn f(m: Pin<&mut DynPinnedMetric<Counter>>) { let x = m.into_ref(); }",
        "fn f(m: Pin<&mut DynPinnedMetric<Counter>>) { let x = m.get_mut(); }"),
    "providing what does not live": (
        "struct M(u32);" + IMPL[:-1] + "fn provide<'a>(&'a self, r: &mut metriken_core::Request<'a>) { r.provide_ref(&self.0); } }",
        "struct M(u32);" + IMPL[:-1] + "fn provide<'a>(&'a self, r: &mut metriken_core::Request<'a>) { let x = self.0; r.provide_ref(&x); } }"),
    "providing lazily what does not live": (
        "struct M(u32);" + IMPL[:-1] + "fn provide<'a>(&'a self, r: &mut metriken_core::Request<'a>) { r.provide_ref_with(|| &self.0); } }",
        "struct M(u32);" + IMPL[:-1] + "fn provide<'a>(&'a self, r: &mut metriken_core::Request<'a>) { let x = self.0; r.provide_ref_with(|| &x); } }"),
    "a value that holds a borrow": (
        "struct M(String);" + IMPL[:-1] + "fn provide<'a>(&'a self, r: &mut metriken_core::Request<'a>) { r.provide_value(self.0.clone()); } }",
        "struct M(String);" + IMPL[:-1] + "fn provide<'a>(&'a self, r: &mut metriken_core::Request<'a>) { r.provide_value::<&'a str>(&self.0); } }"),
    "an entry made up": (
        "fn f(e: &MetricEntry) -> &dyn Metric { e.metric() }",
        "fn f(e: &mut MetricEntry) { e.metric = &Counter::new(); }"),
}


def soundness(prop, seed, tier):
    """C07: what safe code is not allowed to write."""
    started = time.time()
    o = outcome("compiler", "held", evaluations=0, distinct=0, counters={}, samples=[])
    o["command"] = f"VERIF_SEED={seed} python3 check.py {prop} {tier}"
    c = Compiler("unsound", UNSOUND_HEAD)
    if not c.ok:
        o.update(status="inconclusive", message="build failed", detail=c.err[-6000:])
        return o
    pairs = list(UNSOUND.items())
    unclear = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        good = list(ex.map(lambda a: c.rustc(f"g{a[0]}", a[1][1][0]), enumerate(pairs)))
        bad = list(ex.map(lambda a: c.rustc(f"b{a[0]}", a[1][1][1]), enumerate(pairs)))
    for (what, (_, src)), g, b in zip(pairs, good, bad):
        if b.rc == 0:
            c.fail(o, f"unsound safe code compiles ({what})", src, b.err)
            break
        if g.rc != 0 or b.rc != 1 or "internal compiler error" in b.err:
            unclear.append(what)
            continue
        o["evaluations"] += 1
        o["distinct"] += 1
    o["counters"] = {"refused": o["evaluations"], "unclear": len(unclear)}
    o["samples"] = [f"{w}: {s[1]}" for w, s in pairs[:3]]
    if unclear and o["status"] == "held":
        o.update(status="inconclusive", message=f"sound twin not accepted: {unclear}")
    c.close()
    o["wall_s"] = round(time.time() - started, 1)
    return o
