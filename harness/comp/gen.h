// Programs for the compiler: declarations and statements put together by the run's choices.
#pragma once
#include <string>
#include <vector>
#include <functional>
#include <cstdint>
typedef std::function<uint64_t(uint64_t, const char *)> Chooser;
static std::string generate_program(Chooser pick, std::string &lib) {
    using S = std::string;
    static const char *types[] = {"i32", "i64", "u8", "f64", "bool", "u64", "i16", "f32"};
    static const char *vals[] = {"7`i32", "9`i64", "3`u8", "2.5`f64", "true", "11`u64", "4`i16", "1.5`f32"};
    static const char *names[] = {"alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "lam", "mu"};
    S imp, decl, body; bool vec = false, map = false, thr = false, async_ = false; S limp; int nu = 1 + pick(10, "units"); if (!pick(12, "large")) nu += 10 + pick(50, "more"); S lng; if (!pick(10, "long-names")) { int k = 1 + pick(120, "length"); for (int i = 0; i < k; i++) lng += (char)('a' + (i * 7 + k) % 26); }
    auto ty = [&]() { return pick(8, "type"); };
    for (int u = 0; u < nu; u++) {
        S n = std::to_string(u); if (lng.size()) n += "_" + lng; uint64_t t = ty(), t2 = ty();
        switch (pick(50, "unit")) {
        case 0: { // generic struct, several instances
            decl += "struct Box" + n + "[T] {\n  v: T;\n  w: T;\n  func get() => v\n  func both() => (v, w)\n}\n";
            int k = 1 + pick(4, "instances"); for (int i = 0; i < k; i++) { uint64_t q = ty(); S v = S(vals[q]); body += "  var bx" + n + "_" + std::to_string(i) + " = Box" + n + "[" + types[q] + "]{v: " + v + ", w: " + v + "};\n  println(bx" + n + "_" + std::to_string(i) + ".get())\n  println(bx" + n + "_" + std::to_string(i) + ".both().1)\n"; }
            break; }
        case 1: { decl += "func gsel" + n + "[T](a: T, b: T, c: bool): T {\n  if (c)\n    return a\n  return b\n}\n"; int k = 1 + pick(5, "instances"); for (int i = 0; i < k; i++) { uint64_t q = ty(); body += "  println(gsel" + n + "[" + types[q] + "](" + vals[q] + ", " + vals[q] + ", true))\n"; } break; }
        case 2: { int k = 1 + pick(8, "options"); decl += "enum Col" + n + " {\n"; for (int i = 0; i < k; i++) decl += S("  ") + names[(i * 5 + u) % 12] + (pick(3, "value") ? "" : " = " + std::to_string(i * 7 + 3)) + (i + 1 < k ? "," : "") + "\n"; decl += "}\n"; body += "  var col" + n + " = Col" + n + "." + names[u % 12] + ";\n  switch (col" + n + ") {\n    case ." + S(names[u % 12]) + " => println(\"first\")\n    default => println(\"other\")\n  }\n"; break; }
        case 3: { int k = 1 + pick(4, "captures"); S expr; for (int i = 0; i < k; i++) { body += "  var cap" + n + "_" + std::to_string(i) + " = " + std::to_string(i + 2) + "`i32;\n"; expr += " + cap" + n + "_" + std::to_string((i * 3 + u) % k); } decl += "func app" + n + "(f: func(x: i32) -> i32, v: i32): i32 {\n  return f(v)\n}\n"; body += "  println(app" + n + "((x: i32) => x" + expr + ", 5))\n"; break; }
        case 4: { int k = 1 + pick(9, "fields"); decl += "class Rec" + n + " {\n"; for (int i = 0; i < k; i++) { uint64_t q = ty(); decl += S("  - ") + names[(i * 7 + u) % 12] + ": " + types[q] + " = " + vals[q] + ";\n"; } decl += "  func `init`() { }\n  const func first() => " + S(names[u % 12]) + "\n}\n"; body += "  var rec" + n + " = Rec" + n + "();\n  println(rec" + n + ".first())\n"; break; }
        case 5: { decl += "exception Err" + n + "(msg: string) => msg\nfunc risky" + n + "(v: i32): !i32 {\n  if (v > 3)\n    raise Err" + n + "(\"big\")\n  return v\n}\n"; body += "  var rk" + n + " = risky" + n + "(" + std::to_string(pick(8, "v")) + ") catch 7`i32;\n  println(rk" + n + ")\n"; break; }
        case 6: { decl += S("func maybe") + n + "(v: " + types[t] + ", g: bool): " + types[t] + "? {\n  if (g)\n    return v\n  return null\n}\n"; body += "  if (var mb" + n + " = maybe" + n + "(" + vals[t] + ", true)) println(*mb" + n + ")\n"; break; }
        case 7: vec = true; body += S("  var vec") + n + " = Vector[" + types[t] + "]();\n  vec" + n + ".push(" + vals[t] + ")\n  for (var x" + n + ", _: vec" + n + ") println(x" + n + ")\n"; break;
        case 8: map = true; body += S("  var map") + n + " = HashMap[String, " + types[t] + "]();\n  map" + n + ".[\"" + names[t] + "\".S] = " + vals[t] + ";\n  println(map" + n + ".contains(\"a\".S))\n"; break;
        case 9: body += S("  var tup") + n + " = (" + vals[t] + ", \"s\", " + vals[t2] + ");\n  println(tup" + n + ".0, tup" + n + ".1, tup" + n + ".2)\n"; break;
        case 10: { uint64_t a = pick(3, "ua"); static const char *us[] = {"i32 | string", "i64 | f64", "string | bool | i32"}; static const char *uv[] = {"4`i32", "2.5`f64", "true"}; static const char *um[] = {"    case i32 as i => println(i)\n    case string as s => println(s)\n", "    case i64 as i => println(i)\n    case f64 as d => println(d)\n", "    case string as s => println(s)\n    case bool as b => println(b)\n    case i32 as i => println(i)\n"}; body += "  var un" + n + ": " + us[a] + " = " + uv[a] + ";\n  match (un" + n + ") {\n" + um[a] + "  }\n"; break; }
        case 11: body += "  defer println(\"d" + n + "\")\n"; break;
        case 12: { int k = 1 + pick(6, "len"); body += "  var arr" + n + " = ["; for (int i = 0; i < k; i++) body += (i ? ", " : "") + std::to_string(i * 3); body += "];\n  for (var q" + n + ": arr" + n + ") println(q" + n + ")\n"; break; }
        case 13: { int k = 1 + pick(4, "args"); decl += "func many" + n + "(...args: auto): i32 {\n  #for (const x: args) {\n    println(#{x})\n  }\n  return 3\n}\n"; body += "  many" + n + "("; for (int i = 0; i < k; i++) body += S(i ? ", " : "") + vals[ty()]; body += ")\n"; break; }
        case 14: body += "  println(f\"" + S(names[t]) + " ${" + vals[t] + "} and ${" + vals[t2] + "}\")\n"; break;
        case 15: decl += "macro mac" + n + "(X) ((X!) + (X!))\n"; body += "  println(mac" + n + "!(" + std::to_string(t) + "))\n"; break;
        case 16: decl += S("type Al") + n + " = (" + types[t] + ", string)\n"; body += "  var al" + n + ": Al" + n + " = (" + vals[t] + ", \"z\");\n  println(al" + n + ".1)\n"; break;
        case 17: decl += "class Base" + n + " {\n  - legs: i32 = 0;\n  func `init`(v: i32) { legs = v }\n  func count(): i32 { return legs }\n}\nclass Der" + n + " : Base" + n + " {\n  func `init`(v: i32) { super(v) }\n  func twice(): i32 { return count() * 2 }\n}\n"; body += "  var der" + n + " = Der" + n + "(4);\n  println(der" + n + ".twice())\n"; break;
        case 18: body += "  var i" + n + " = 0;\n  while (i" + n + " < 3) {\n    i" + n + " = i" + n + " + 1;\n    if (i" + n + " == 2) continue;\n    println(i" + n + ")\n  }\n"; break;
        case 19: vec = true; decl += "class Own" + n + " {\n  - inner: Vector[String];\n  - next: Own" + n + " = null;\n  func `init`() { inner = Vector[String](); inner.push(\"" + S(names[t]) + "\".S) }\n  const func size() => inner.size()\n}\n"; body += "  var own" + n + " = Own" + n + "();\n  println(own" + n + ".size())\n"; break;
        case 20: async_ = true; decl += S("func job") + n + "(a: " + types[t] + ", b: string): void {\n  println(a, b)\n}\n"; body += S("  async job") + n + "(" + vals[t] + ", \"" + names[t2] + "\")\n  sleepAsync(5)\n"; break;
        case 21: if (pick(5, "bad")) { body += S("  println(\"") + names[t] + "\")\n"; break; } body += S("  println(nosuch") + n + ")\n"; break;   // a diagnostic with its suggestions
        case 22: decl += S("func over") + n + "(a: " + types[t] + ") => 1\nfunc over" + n + "(a: string) => 2\nfunc over" + n + "(a: " + types[t] + ", b: " + types[t2] + ") => 3\n"; body += S("  println(over") + n + "(" + vals[t] + "), over" + n + "(\"s\"), over" + n + "(" + vals[t] + ", " + vals[t2] + "))\n"; break;
        case 23: decl += S("const K") + n + " = " + vals[t] + ";\nstruct Pt" + n + " {\n  x: " + types[t] + ";\n  y: " + types[t2] + ";\n  const func `str`(os: &OutputStream) { os << x << ',' << y }\n}\n"; body += S("  var pt") + n + " = Pt" + n + "{x: K" + n + ", y: " + vals[t2] + "};\n  println(pt" + n + ")\n"; break;
        case 24: decl += S("func kind") + n + "[T](v: T): i32 {\n  #if (T.isInteger) {\n    return 1\n  }\n  else #if (T.isFloat) {\n    return 2\n  }\n  else {\n    return 3\n  }\n}\n"; for (int i = pick(4, "instances"); i >= 0; i--) { uint64_t q = ty(); body += S("  println(kind") + n + "[" + types[q] + "](" + vals[q] + "))\n"; } break;
        case 25: body += S("  for (var i") + n + ": 0..5) {\n    for (var j" + n + ": 0..3) {\n      if (i" + n + " == j" + n + ") continue;\n      println(i" + n + " + j" + n + ")\n    }\n  }\n"; break;
        case 26: case 27: { // things of another file
            if (lib.empty()) lib = "module lib\n"; lib += S("pub struct Thing") + n + " {\n  x: " + types[t] + ";\n  func get() => x\n}\npub func helper" + n + "[T](a: T): T {\n  return a\n}\npub enum Eno" + n + " {\n  A,\n  B\n}\npub const LIM" + n + " = " + vals[t2] + ";\npub class Held" + n + " {\n  - s: String;\n  func `init`() { s = \"" + names[t] + "\".S }\n  const func size() => s.size()\n}\n";
            limp += S(limp.empty() ? "" : ", ") + "Thing" + n + ", helper" + n + ", Eno" + n + ", LIM" + n + ", Held" + n;
            body += S("  var th") + n + " = Thing" + n + "{x: " + vals[t] + "};\n  println(th" + n + ".get())\n  println(helper" + n + "[" + types[t2] + "](" + vals[t2] + "))\n  println(LIM" + n + ")\n  var en" + n + " = Eno" + n + ".A;\n  println(en" + n + " == Eno" + n + ".B)\n  var he" + n + " = Held" + n + "();\n  println(he" + n + ".size())\n"; break; }
        case 28: decl += S("struct Vc") + n + " {\n  x: i32;\n  y: i32;\n  const func `+`(o: &const This) => Vc" + n + "{x: x + o.x, y: y + o.y}\n  const func `==`(o: &const This) => x == o.x\n}\n"; body += S("  var va") + n + " = Vc" + n + "{x: 1, y: 2};\n  var vb" + n + " = Vc" + n + "{x: 3, y: 4};\n  var vs" + n + " = va" + n + " + vb" + n + ";\n  println(vs" + n + ".x)\n  println(va" + n + " == vb" + n + ")\n"; break;
        case 29: decl += S("class Node") + n + " {\n  - val: i32 = 0;\n  - next: Node" + n + " = null;\n  func `init`(v: i32) { val = v }\n  func link(k: Node" + n + ") { next = k }\n  const func value() => val\n}\nfunc chain" + n + "(k: i32): Node" + n + " {\n  var r = Node" + n + "(k);\n  if (k > 0) {\n    r.link(chain" + n + "(k - 1))\n  }\n  return r\n}\n"; body += S("  var nd") + n + " = chain" + n + "(4);\n  println(nd" + n + ".value())\n"; break;
        case 30: decl += S("func fact") + n + "(k: i64): i64 => k < 2 ? 1`i64 : k * fact" + n + "(k - 1)\n"; body += S("  println(fact") + n + "(" + std::to_string(t) + "))\n  var xo" + n + " = 9;\n  xo" + n + " += 3;\n  println(xo" + n + " ^ 5 | 3 & 4 << 1)\n  println(sizeof!(#" + types[t] + "))\n"; break;
        case 31: if (!pick(4, "long-text")) { int k = pick(3000, "length"); S tx; for (int i = 0; i < k; i++) tx += i % 61 == 60 ? S("\\n") : S(1, (char)('a' + i % 26)); body += "  println(\"" + tx + "\")\n"; break; } body += S("  var sg") + n + " = \"" + names[t] + "\".S;\n  sg" + n + " << 3 << ' ' << true;\n  println(sg" + n + ")\n"; break;
        case 32: decl += S("test \"case ") + n + " " + names[t] + "\" {\n  var a = " + vals[t] + ";\n  ok!(a == " + vals[t] + ")\n}\n"; break;
        case 33: case 34: { // objects that change hands on some of the ways through a function
            int k = 1 + pick(5, "params"), l = (int)pick(4, "locals"), b = 1 + (int)pick(4, "branches"); 
            decl += "class Obj" + n + " {\n  - v: i32 = 0;\n  func `init`(v: i32) { this.v = v }\n  const func value() => v\n}\nfunc keep" + n + "(o: Obj" + n + "): i32 { return o.value() }\nfunc flow" + n + "(k: i32"; for (int i = 0; i < k; i++) decl += ", p" + std::to_string(i) + ": Obj" + n; decl += "): i32 {\n  var r = 0`i32;\n";
            for (int i = 0; i < l; i++) decl += "  var l" + std::to_string(i) + " = Obj" + n + "(" + std::to_string(i) + ");\n";
            std::vector<char> gone; auto use = [&]() -> S { S v; int q = (int)pick((uint64_t)(k + l), "object"); int w = (int)pick(4, "use"); if (gone[q] && w != 1) return "r += 3;\n"; gone[q] = w == 0 || w == 2; v = q < k ? "p" + std::to_string(q) : "l" + std::to_string(q - k); switch (w) { case 0: return "r += keep" + n + "(&&" + v + ");\n"; case 1: return v + " = Obj" + n + "(9);\n"; case 2: return v + " = null;\n"; default: return "r += 1;\n"; } };
            auto uses = [&](const char *in) { S o; gone.assign(k + l, 0); for (int j = 1 + (int)pick(4, "uses"); j > 0; j--) o += in + use(); return o; };
            switch (pick(4, "way")) {
            case 0: for (int i = 0; i < b; i++) decl += S(i ? "  else if" : "  if") + " (k > " + std::to_string(b - i) + ") {\n" + uses("    ") + "  }\n"; break;
            case 1: decl += "  switch (k) {\n"; for (int i = 0; i < b; i++) decl += "    case " + std::to_string(i) + "`i32 => {\n" + uses("      ") + "    }\n"; decl += "    default => { r += 2 }\n  }\n"; break;
            case 2: decl += "  var c = k;\n  while (c > 0) {\n    c -= 1;\n    if (c == 2) {\n" + uses("      ") + (pick(2, "leave") ? "      break\n" : "      continue\n") + "    }\n    r += 1;\n  }\n"; break;
            default: decl += "  if (k > 0) {\n    if (k > 1) {\n" + uses("      ") + "    }\n    else {\n" + uses("      ") + "    }\n  }\n"; if (pick(2, "early")) decl += "  if (k > 3) {\n    return r\n  }\n"; break;
            }
            decl += "  return r\n}\n"; body += "  println(flow" + n + "(1`i32"; for (int i = 0; i < k; i++) body += ", Obj" + n + "(" + std::to_string(i) + ")"; body += "))\n"; break; }
        case 35: { int k = 1 + pick(6, "captured"); S e = "0`i32"; decl += "class Cap" + n + " {\n  - v: i32 = 0;\n  func `init`(v: i32) { this.v = v }\n  virtual func value(): i32 { return v }\n}\nclass Cbp" + n + " : Cap" + n + " {\n  func `init`(v: i32) { super(v) }\n  func value(): i32 { return 7 }\n}\nfunc call" + n + "(f: func() -> i32): i32 { return f() }\n"; for (int i = 0; i < k; i++) { body += "  var cc" + n + "_" + std::to_string(i) + ": Cap" + n + " = " + (i % 2 ? "Cbp" : "Cap") + n + "(" + std::to_string(i) + "`i32);\n"; e += " + cc" + n + "_" + std::to_string((i * 5 + u) % k) + ".value()"; } body += "  println(call" + n + "(() => " + e + "))\n"; break; }
        case 36: { static const char *us[] = {"UA", "UB", "UC"}; int k = 1 + (int)pick(3, "arms"); S un, m; for (int i = 0; i < k; i++) { S c = us[i] + n; decl += "class " + c + " {\n  - s: String;\n  func `init`() { s = \"" + names[i] + "\".S }\n  const func size() => s.size()\n}\n"; un += (i ? " | " : "") + c; m += "    case " + c + " as q => { println(q.size()) }\n"; } decl += "type Un" + n + " = i64 | " + un + "\nfunc show" + n + "(v: Un" + n + "): void {\n  match (v) {\n    case i64 as i => { println(i) }\n" + m + "  }\n}\n"; body += "  var uo" + n + " = UA" + n + "();\n  show" + n + "(uo" + n + ")\n  show" + n + "(4`i64)\n"; break; }
        case 37: { int k = 1 + (int)pick(5, "members"); decl += "struct Ref" + n + " {\n"; for (int i = 0; i < k; i++) decl += "  " + S(names[(i * 5 + u) % 12]) + ": " + types[ty()] + ";\n"; decl += "}\nfunc describe" + n + "[T](): void {\n  #for (const f: T.members) {\n    #if (f.isField) {\n      println(#{f.name})\n    }\n  }\n}\n"; body += "  describe" + n + "[Ref" + n + "]()\n"; break; }
        case 38: { decl += "exception Bad" + n + "(a: i32) => \"bad\"\nclass Hold" + n + " {\n  - v: i32 = 0;\n  func `init`(v: i32) { this.v = v }\n  const func value() => v\n}\nfunc mk" + n + "(v: i32): !Hold" + n + " {\n  if (v > 2)\n    raise Bad" + n + "(v)\n  return Hold" + n + "(v)\n}\nfunc nest" + n + "(v: i32): !i32 {\n"; int k = 1 + (int)pick(4, "calls"); for (int i = 0; i < k; i++) decl += "  var h" + std::to_string(i) + " = mk" + n + "(v" + (i ? " + " + std::to_string(i) : "") + ")" + (pick(2, "caught") ? " catch { return " + std::to_string(i) + "`i32 }" : "") + ";\n"; decl += "  return h0.value()\n}\n"; body += "  println(nest" + n + "(1`i32) catch 5`i32)\n"; break; }
        case 39: { int k = 1 + (int)pick(3, "tuple"); decl += "class Tp" + n + " {\n  - v: i32 = 0;\n  func `init`(v: i32) { this.v = v }\n  const func value() => v\n}\nfunc pair" + n + "(a: Tp" + n + ", b: Tp" + n + "): (Tp" + n + ", i32, Tp" + n + ") => (a, 3`i32, b)\n"; for (int i = 0; i < k; i++) body += "  var tp" + n + "_" + std::to_string(i) + " = pair" + n + "(Tp" + n + "(1), Tp" + n + "(" + std::to_string(i) + "));\n  println(tp" + n + "_" + std::to_string(i) + ".2.value())\n"; break; }
        case 40: { thr = true; int k = 1 + (int)pick(4, "captured"); decl += "func work" + n + "(a: " + types[t] + ", b: " + types[t2] + "): void {\n  println(a, b)\n}\n"; for (int i = 0; i < k; i++) body += "  var tx" + n + "_" + std::to_string(i) + " = launch work" + n + "(" + vals[t] + ", " + vals[t2] + ");\n"; for (int i = 0; i < k; i++) body += "  tx" + n + "_" + std::to_string(i) + ".join()\n"; break; }
        case 41: { // something wrong, most often nothing
            if (pick(3, "wrong")) { body += "  println(" + std::to_string(u) + ")\n"; break; }
            decl += "struct Er" + n + " {\n  alpha: i32;\n  beta: i32;\n  func gamma(a: i32) => a + alpha\n  func gamma(a: string) => a\n}\nenum Ee" + n + " { One, Two, Three }\ntype Eu" + n + " = i32 | string | f64\nfunc wanted" + n + "(a: i32, b: string): i32 { return a }\nfunc wanted" + n + "(a: f64): i32 { return 2`i32 }\nfunc gen" + n + "[T, U](a: T, b: U): T { return a }\n";
            static const char *bad[] = {"er#.nosuch()", "er#.alpah = 3`i32", "er#.gamma(1.5, 2)", "wanted#(\"a\")", "wanted#(1`i32, 2`i32, 3)", "var q# = Er#{alpha: 1`i32, gama: 2`i32}", "var q#: Er# = 4`i32", "switch (ee#) {\n    case .One => println(1)\n    case .One => println(2)\n  }", "switch (ee#) {\n    case .Four => println(1)\n    default => println(3)\n  }", "match (eu#) {\n    case i32 as i => println(i)\n  }", "match (eu#) {\n    case i32 as i => println(i)\n    case bool as b => println(b)\n    else => println(2)\n  }", "var q#: Nosuch# = 4", "println(undefined#_a, undefined#_b)", "gen#[i32](1`i32)", "er#.alpha.beta()", "var er# = 3`i32", "er# + 3", "er#(4)", "break", "println(!er#)", "var (a#, b#, c#) = (1, 2)", "raise Er#{alpha: 1`i32, beta: 2`i32}", "for (var i#: er#) println(i#)", "er#.[3]", "super.foo()", "var q# = er# as string", "eu# = true", "println(wantd#(1`i32, \"s\"))", "while (er#) println(1)", "async er#", "var q# = &3", "return 4`i32 + \"s\""};
            S b = bad[pick(sizeof bad / sizeof *bad, "error")], r; for (char c : b) if (c == '#') r += n; else r += c;
            body += "  var er" + n + " = Er" + n + "{alpha: 1`i32, beta: 2`i32};\n  var ee" + n + " = Ee" + n + ".Two;\n  var eu" + n + ": Eu" + n + " = 4`i32;\n  " + r + ";\n  println(er" + n + ".alpha)\n"; break; }
        case 42: { int k = 1 + (int)pick(4, "methods"); decl += "interface If" + n + " {\n"; for (int i = 0; i < k; i++) decl += S("  func ") + names[i] + "(): i32\n"; decl += "}\nclass Im" + n + " {\n  func `init`() { }\n"; for (int i = 0; i < k; i++) decl += S("  func ") + names[(i + 1) % k] + "(): i32 { return " + std::to_string(i) + "`i32 }\n"; decl += "}\n"; body += "  var im" + n + " = Im" + n + "();\n  println(im" + n + ".alpha())\n"; break; }
        case 43: { int k = 1 + (int)pick(5, "cases"); decl += "func sw" + n + "(s: " + S(pick(2, "strings") ? "i64" : "i32") + "): i32 {\n  switch (s) {\n"; bool w = decl.find("sw" + n + "(s: i64") != S::npos; for (int i = 0; i < k; i++) decl += "    case " + std::to_string(i * 7 % 5 + i * 5) + (w ? "`i64" : "`i32") + " => { return " + std::to_string(i) + "`i32 }\n"; decl += "    default => { return 9`i32 }\n  }\n  return 0`i32\n}\n"; body += "  println(sw" + n + "(5`" + (w ? "i64" : "i32") + "))\n"; break; }
        case 44: { int k = 2 + (int)pick(4, "elems"); body += "  var rv" + n + " = ["; for (int i = 0; i < k; i++) body += S(i ? ", " : "") + std::to_string(i * 3) + "`i32"; body += "];\n  for (var r" + n + ", ri" + n + ": rv" + n + ") println(r" + n + ", ri" + n + ")\n"; break; }
        case 45: { int k = 1 + (int)pick(3, "defaults"); decl += "func dflt" + n + "(a: i32"; for (int i = 0; i < k; i++) decl += ", d" + std::to_string(i) + ": i32 = " + std::to_string(i + 3); decl += "): i32 {\n  return a"; for (int i = 0; i < k; i++) decl += " + d" + std::to_string(i); decl += "\n}\n"; body += "  println(dflt" + n + "(1`i32))\n  println(dflt" + n + "(1`i32, 2`i32))\n"; break; }
        case 46: decl += "func outer" + n + "(f: func(a: i32) -> i32): i32 {\n  return f(3`i32)\n}\n"; body += "  var oc" + n + " = 4`i32;\n  var od" + n + " = 5`i32;\n  println(outer" + n + "((a: i32) => a + oc" + n + " + od" + n + "), outer" + n + "((b: i32) => od" + n + " * b - oc" + n + "))\n"; break;
        case 47: { int k = 1 + (int)pick(4, "consts"); for (int i = 0; i < k; i++) decl += "const C" + n + "_" + std::to_string(i) + " = " + (i ? "C" + n + "_" + std::to_string(i - 1) + " + " : S()) + std::to_string(i + 1) + ";\n"; body += "  println(C" + n + "_" + std::to_string(k - 1) + ")\n"; break; }
        case 48: { int k = 1 + (int)pick(4, "depth"); decl += "struct Lst" + n + "[T] {\n  v: T;\n  func map[U](f: func(x: T) -> U): U {\n    return f(v)\n  }\n}\n"; body += "  var ls" + n + " = Lst" + n + "[i32]{v: 3`i32};\n"; for (int i = 0; i < k; i++) body += "  println(ls" + n + ".map[" + types[ty() % 2] + "]((x: i32) => x + " + std::to_string(i) + "`i32))\n"; break; }
        case 49: { int k = 1 + (int)pick(3, "defers"); decl += "func defd" + n + "(v: i32): i32 {\n"; for (int i = 0; i < k; i++) decl += "  defer println(\"later " + std::to_string(i) + "\")\n"; decl += "  if (v > 3) {\n    defer println(\"inner\")\n    return v\n  }\n  return v + 1\n}\n"; body += "  println(defd" + n + "(2`i32), defd" + n + "(5`i32))\n"; break; }
        }
    }
    if (vec) imp += "import { Vector } from \"stdlib/vector.cxy\"\n"; if (thr) imp += "import { Thread } from \"stdlib/thread.cxy\"\n"; if (map) imp += "import { HashMap } from \"stdlib/hash.cxy\"\n"; if (limp.size()) imp += "import { " + limp + " } from \"./lib.cxy\"\n"; if (async_) imp += "import { Mutex } from \"stdlib/coro.cxy\"\n"; else
    if (!pick(8, "import-coro")) imp += "import \"stdlib/coro.cxy\"\n";
    S test; if (!pick(3, "test-case")) test = "test \"t\" {\n  ok!(1 == 1)\n}\n";
    return imp + decl + test + "pub func main(): !void {\n" + body + "}\n";
}
