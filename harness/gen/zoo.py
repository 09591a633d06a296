#!/usr/bin/env python3
# Writes ../h/zoo_gen.go: struct types with embedding, tags and conflicting names, each with
# the members encoding/json gives it. The table comes from encoding/json itself, run here once.
# It does not depend on /repo.
import random, subprocess, os, json, tempfile, sys
N = int(sys.argv[1]) if len(sys.argv) > 1 else 120
here = os.path.dirname(os.path.abspath(__file__))
rnd = random.Random(20)
UP, LO = "Z", "z"  # of the names of types
TAGS = ["", "", "", "", "a", "b", "c", "A", "B", "ab", "-", "-,", ",omitempty", ",string", "a,omitempty", "b,string", "c,omitempty,string", ",omitempty", "a<", "é", "x'y", "B,foo"]
NAMES = ["A", "B", "C", "Ab", "D"]
class S: pass
def build(k):
    types = []
    def mk(depth, exported, allowself):
        t = S(); t.name = (UP if exported else LO) + "%d" % k + "abcdefghij"[len(types)]
        t.items = []; types.append(t)
        used = set()
        for _ in range(rnd.randint(0 if depth else 1, 3)):
            n = rnd.choice(NAMES)
            if n in used: continue
            used.add(n); tg = rnd.choice(TAGS); t.items.append(("f", n, ("-," + ["", "omitempty", "string"][k % 3]) if tg == "-," else tg))
        if rnd.random() < 0.15: t.items.append(("u", "a", rnd.choice(["", "a", "b"])))
        if rnd.random() < 0.15: t.items.append(("n", rnd.random() < 0.6, rnd.choice(["", "", "a", "b,omitempty"])))
        if depth < 3 and len(types) < 7:
            for _ in range(rnd.choice([0, 1, 1, 2, 2, 3]) if depth else rnd.choice([1, 2, 2, 3])):
                ptr = rnd.random() < 0.5
                again = [x for x in types[1:] if x is not t and x.done] if rnd.random() < 0.3 else []
                sub = rnd.choice(again) if again else mk(depth + 1, rnd.random() < 0.7, False)
                if any(i[0] == "e" and i[1] is sub for i in t.items): continue
                if again and sub.depth <= depth: continue
                tag = rnd.choice(["", "", "", "", "", "a", "c,omitempty"])
                if ptr and sub.name[0] == LO: tag = ""
                t.items.append(("e", sub, ptr, tag))
        if depth and rnd.random() < 0.08: t.items.append(("e", types[0], True, ""))
        rnd.shuffle(t.items)
        t.depth = depth; t.done = True
        return t
    class L(list): pass
    S.done = False
    root = mk(0, True, False)
    return root, types
def tagstr(t): return "" if t == "" else " `json:%s`" % json.dumps(t, ensure_ascii=False)
def js(i): return i[3] if i[0] == "e" else i[2]
def decl(k, root, types, tag=lambda i: tagstr(js(i))):
    out = ["type ("]
    ns = set()
    for t in types:
        out.append("\t%s struct {" % t.name)
        for i in t.items:
            if i[0] == "f": out.append("\t\t%s int%s" % (i[1], tag(i)))
            elif i[0] == "u": out.append("\t\t%s int%s" % (i[1], tag(i)))
            elif i[0] == "n":
                n = (UP + "N%d" if i[1] else LO + "n%d") % k; ns.add(n)
                out.append("\t\t%s%s" % (n, tag(i)))
            else: out.append("\t\t%s%s%s" % ("*" if i[2] else "", i[1].name, tag(i)))
        out.append("\t}")
    for n in sorted(ns): out.append("\t%s int" % n)
    out.append(")")
    return "\n".join(out)
def walk(k, root, sel=js):
    """leaves: (expr, [ptr ids], conv); ptrs: (expr, type, [ptr ids before], exported)"""
    leaves, ptrs = [], []
    def go(t, e, path, depth):
        for i in t.items:
            if i[0] in "fu": leaves.append((e + "." + i[1], path, False))
            elif i[0] == "n": leaves.append((e + "." + ((UP + "N%d" if i[1] else LO + "n%d") % k), path, True))
            else:
                f = e + "." + i[1].name
                if i[2]:
                    if depth > 3 or i[1] is root: continue  # a pointer that stays nil
                    ptrs.append((f, i[1].name, path, sel(i) not in ("", "-", "-,") and sel(i)[0] != ",")); go(i[1], f, path + [len(ptrs) - 1], depth + 1)
                else: go(i[1], f, path, depth + 1)
    go(root, "x", [], 0)
    return leaves, ptrs
def collect(n):
    shapes, k = [], 0
    while len(shapes) < n:
        root, types = build(k)
        leaves, ptrs = walk(k, root)
        if len(ptrs) <= 4 and 1 < len(leaves) <= 16:
            shapes.append((k, root, types, leaves, ptrs))
        k += 1
    return shapes
def funcs(s):
    k, root, types, leaves, ptrs = s
    o = ["{func(null func(int) bool) interface{} {", "\tx := &%s{}" % root.name]
    for j, (e, t, path, _) in enumerate(ptrs):
        o.append("\tif %s!null(%d) { %s = &%s{} }" % ("".join("%s != nil && " % ptrs[q][0] for q in path), j, e, t))
    o += ["\treturn x", "}, func(r interface{}) []*int {", "\tx := r.(*%s)" % root.name, "\tl := make([]*int, %d)" % len(leaves)]
    for j, (e, path, conv) in enumerate(leaves):
        v = "(*int)(&%s)" % e if conv else "&" + e
        if path: o.append("\tif %s { l[%d] = %s }" % (" && ".join("%s != nil" % ptrs[q][0] for q in path), j, v))
        else: o.append("\tl[%d] = %s" % (j, v))
    o += ["\t_ = x", "\treturn l", "}"]
    return "\n".join(o)
# ---- run encoding/json
env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOWORK="off", PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"])
def oracle(shapes, tag=lambda i: tagstr(js(i))):
    d = tempfile.mkdtemp()
    src = ["package main", 'import ("encoding/json"; "fmt"; "bytes"; "strconv"; "strings")', "var _ = bytes.NewReader"]
    for s in shapes: src.append(decl(*s[:3], tag=tag))
    src.append("type shp struct { mk func(func(int) bool) interface{}; lv func(interface{}) []*int; np int }")
    src.append("var shapes = []shp{")
    for s in shapes: src.append(funcs(s) + ", %d}," % len(s[4]))
    src.append("}")
    src.append(r'''
type m struct { Name string; Leaf int; Omit, Quoted bool; Kids []m; Ptr int; Abs []int }
// members of an object as encoding/json writes it
func read(d *json.Decoder) []m {
	var out []m
	for d.More() {
		t, _ := d.Token(); x := m{Name: t.(string), Leaf: -1, Ptr: -1}
		v, _ := d.Token()
		switch v := v.(type) {
		case json.Delim: x.Kids = read(d); if x.Kids == nil { x.Kids = []m{} }
		case string: x.Quoted = true; x.Leaf, _ = strconv.Atoi(v)
		case json.Number: n, _ := v.Int64(); x.Leaf = int(n)
		case nil: x.Leaf = -2 // a pointer that stays nil
		}
		out = append(out, x)
	}
	d.Token()
	return out
}
func enc(r interface{}) ([]m, string) {
	b, err := json.Marshal(r)
	if err != nil { panic(err) }
	d := json.NewDecoder(bytes.NewReader(b)); d.UseNumber()
	d.Token()
	return read(d), string(b)
}
func paths(ms []m, pre string, set map[string]bool) { for _, x := range ms { set[pre+x.Name] = true; paths(x.Kids, pre+x.Name+"\x00", set) } }
func mark(ms []m, pre string, f func(p string, x *m)) { for i := range ms { f(pre+ms[i].Name, &ms[i]); mark(ms[i].Kids, pre+ms[i].Name+"\x00", f) } }
func find(ms []m, p string) *m { var r *m; mark(ms, "", func(q string, x *m) { if q == p { r = x } }); return r }
func main() {
	var all [][]m
	for _, s := range shapes {
		r := s.mk(func(int) bool { return false })
		ls := s.lv(r)
		for i, l := range ls { *l = 1000+i }
		ms, _ := enc(r)
		mark(ms, "", func(p string, x *m) { if x.Leaf >= 0 { x.Leaf -= 1000 } })
		for _, l := range ls {
			o := *l; *l = 0
			ms2, _ := enc(r)
			mark(ms, "", func(p string, x *m) { if x.Leaf >= 0 && ls[x.Leaf] == l && find(ms2, p) == nil { x.Omit = true } })
			*l = o
		}
		// what a nil pointer makes null or leaves out (while the object around it is there)
		for k := 0; k < s.np; k++ {
			r2 := s.mk(func(i int) bool { return i == k })
			for i, l := range s.lv(r2) { if l != nil { *l = 1000+i } }
			ms2, _ := enc(r2)
			mark(ms, "", func(p string, x *m) {
				y := find(ms2, p)
				if y != nil {
					if x.Kids != nil && y.Leaf == -2 { x.Ptr = k }
					return
				}
				i := strings.LastIndex(p, "\x00")
				if i >= 0 {
					if up := find(ms2, p[:i]); up == nil || up.Leaf == -2 { return }
				}
				x.Abs = append(x.Abs, k)
			})
		}
		all = append(all, ms)
	}
	b, _ := json.Marshal(all)
	fmt.Println(string(b))
}
''')
    open(d + "/main.go", "w").write("\n".join(src))
    open(d + "/go.mod", "w").write("module zoo\ngo 1.23\n")
    r = subprocess.run(["go", "run", "."], cwd=d, env=env, capture_output=True, text=True)
    if r.returncode: sys.exit(r.stderr[:3000])
    subprocess.run(["rm", "-r", d])
    return json.loads(r.stdout)
def lit(ms, s):
    o = []
    for x in ms or []:
        own = [q for q in x["Abs"] or [] if s[4][q][3]]
        if own: assert x["Kids"] is not None and len(own) == 1; x["Ptr"], x["Omit"] = own[0], True; x["Abs"].remove(own[0])
        o.append("{%s, %d, %s, %s, %s, %d, []int{%s}}" % (json.dumps(x["Name"], ensure_ascii=False), x["Leaf"], str(x["Omit"]).lower(), str(x["Quoted"]).lower(),
                 "nil" if x["Kids"] is None else "[]zm{" + ", ".join(lit(x["Kids"], s)) + "}", x["Ptr"], ", ".join(map(str, x["Abs"] or []))))
    return o
def write(name, out):
    p = os.path.join(here, "..", "h", name)
    open(p, "w").write("\n".join(["// Code generated by gen/zoo.py; DO NOT EDIT.", "package h", ""] + out))
    subprocess.run(["gofmt", "-w", p], check=True, env=env)
def head(s):
    ex = ", ".join("true" if p[1][0] == UP else "false" for p in s[4])
    up = ", ".join("{%s}" % ", ".join(map(str, p[2])) for p in s[4])
    return funcs(s) + ",\n[]bool{%s}, [][]int{%s},\n" % (ex, up)
shapes = collect(N)
tab = oracle(shapes)
out = [decl(*s[:3]) for s in shapes] + ["var zooAll = []stZoo{"]
for s, t in zip(shapes, tab): out.append(head(s) + "[]zm{%s}}," % ", ".join(lit(t, s)))
write("zoo_gen.go", out + ["}"])

# ---- the same under options: another tag name (1), only tagged fields (2), both (3).
# The oracle is encoding/json on types whose json tags are what the option makes of them.
UP, LO = "Y", "y"
rnd = random.Random(21)
shapes = collect(N // 2)
db = {}
rnd2 = random.Random(22)
for s in shapes:
    for t in s[2]:
        for i in t.items:
            if i[0] == "e": db[id(i)] = "" if i[2] and (i[1].name[0] == LO or i[1] is s[1]) else rnd2.choice(["", "", "", "", "d", "a"])
            else: db[id(i)] = rnd2.choice(["", "", "a", "b", "d", "D", "-", ",omitempty", "d,string", "ab,omitempty"])
def both(i):
    l = ["%s:%s" % (n, json.dumps(t, ensure_ascii=False)) for n, t in (("json", js(i)), ("db", db[id(i)])) if t]
    return " `%s`" % " ".join(l) if l else ""
def sel(o):
    def f(i):
        t = db[id(i)] if o & 1 else js(i)
        return "-" if o & 2 and t == "" and i[0] in "fu" else t
    return f
tabs = []
for o in range(4):
    ss = [s[:3] + walk(s[0], s[1], sel(o)) for s in shapes]
    tabs.append([lit(t, s) for s, t in zip(ss, oracle(ss, lambda i: tagstr(sel(o)(i))))])
out = [decl(*s[:3], tag=both) for s in shapes] + ["var zooOpt = []stZooO{"]
for j, s in enumerate(shapes):
    out.append(head(s) + "[4][]zm{{%s}}}," % "}, {".join(", ".join(tabs[o][j]) for o in range(4)))
write("zooopt_gen.go", out + ["}"])
