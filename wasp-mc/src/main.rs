//! Bounded-exhaustive exploration of the WASP compiler against a reference model of the language.
mod real;
mod spec;
use mc_common::{digits, par, sequences, Ctx};
use real::{disagree, see, Seen};
use serde_json::json;
use spec::*;
use std::collections::{BTreeSet, HashMap, HashSet, VecDeque};
use std::sync::Mutex;

fn s(x: &str) -> String {
    x.to_string()
}

fn report(ctx: &Ctx, text: &str, why: String) {
    ctx.violation(text, || format!("program (JSON string): {}\n{why}", serde_json::to_string(text).unwrap()));
}

/// One execution of the real compiler, compared with the reference verdict on the same text.
fn compare(ctx: &Ctx, text: &str) -> Seen {
    let v = judge(text);
    let got = see(text);
    if let Some(why) = disagree(&v, &got) {
        report(ctx, text, why);
    }
    got
}

/// The generator knows which program it wrote: check tree, join points and queries against that.
fn compare_program(ctx: &Ctx, text: &str, want: &[Adv]) {
    match see(text) {
        Seen::Ok { ast, joins: j, queries: q } => {
            if ast != want {
                report(ctx, text, format!("tree differs\n  want {want:?}\n  got  {ast:?}"));
            }
            let wj = joins(want);
            if j != wj {
                report(ctx, text, format!("join points differ\n  want {wj:?}\n  got  {j:?}"));
            }
            let wq = queries(want);
            if q != wq {
                report(ctx, text, format!("support queries differ\n  want {wq:?}\n  got  {q:?}"));
            }
        }
        other => report(ctx, text, format!("legal program not compiled: {other:?}")),
    }
}

/// One advice per kind.
fn kinds(n: [&str; 3], body: &str) -> Vec<Adv> {
    let b = s(body);
    let [x, y, z] = n.map(s);
    let mut v = vec![
        Adv::Global(b.clone()),
        Adv::CallPre(x.clone(), b.clone()),
        Adv::CallPost(x.clone(), b.clone()),
        Adv::BlockPre(b.clone()),
        Adv::BlockPost(b.clone()),
        Adv::LoopPre(b.clone()),
        Adv::LoopPost(b.clone()),
        Adv::Select(x.clone(), b.clone()),
        Adv::CallIndirectPre { table: x.clone(), index: y.clone(), body: b.clone() },
        Adv::CallIndirectPost(x.clone(), b.clone()),
        Adv::IfThen(x.clone(), b.clone()),
        Adv::IfThenElse(x.clone(), b.clone()),
        Adv::BrIf { cond: x.clone(), label: y.clone(), body: b.clone() },
        Adv::BrTable { target: x.clone(), default: y.clone(), body: b.clone() },
    ];
    for means in 0..3 {
        v.push(Adv::ApplyGen { means, f: x.clone(), a: y.clone(), r: z.clone(), body: b.clone() });
    }
    for marked_mut in [false, true] {
        v.push(Adv::ApplySpe {
            marked_mut,
            f: x.clone(),
            args: vec![(y.clone(), Ty::I32)],
            ress: vec![(z.clone(), Ty::F64)],
            body: b.clone(),
        });
    }
    v
}

fn param_names(n: usize, off: usize) -> Vec<String> {
    (0..n).map(|i| s(["a", "bb", "c", "dD", "e", "g", "hh", "k"][i + off])).collect()
}

/// Distinct names: a, b, .., z, ba, bb, ..
fn name_of(mut k: usize) -> String {
    let mut t = vec![];
    loop {
        t.push(b'a' + (k % 26) as u8);
        k /= 26;
        if k == 0 {
            break;
        }
    }
    t.reverse();
    String::from_utf8(t).unwrap()
}
/// Specialised advice whose formals are all distinct, however many.
fn wide(marked_mut: bool, args: &[Ty], ress: &[Ty], body: &str) -> Adv {
    Adv::ApplySpe {
        marked_mut,
        f: name_of(0),
        args: args.iter().enumerate().map(|(i, t)| (name_of(1 + i), *t)).collect(),
        ress: ress.iter().enumerate().map(|(i, t)| (name_of(1 + args.len() + i), *t)).collect(),
        body: s(body),
    }
}
const LENGTHS: [usize; 23] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 257];

fn spe(marked_mut: bool, args: &[Ty], ress: &[Ty], body: &str) -> Adv {
    let an = param_names(args.len(), 0);
    let rn = param_names(ress.len(), args.len());
    Adv::ApplySpe {
        marked_mut,
        f: s("f"),
        args: an.into_iter().zip(args.iter().copied()).collect(),
        ress: rn.into_iter().zip(ress.iter().copied()).collect(),
        body: s(body),
    }
}

fn ty_lists(lo: usize, hi: usize) -> Vec<Vec<Ty>> {
    sequences(4, lo, hi).into_iter().map(|v| v.into_iter().map(|i| TYS[i]).collect()).collect()
}

/// Every kind of advice under several names, including ones that spell keywords or types of the language, and bodies.
fn catalogue() -> Vec<Adv> {
    let names = ["x", "y", "func", "Mut", "pre", "Condition", "WasmFunction", "aspect", "Args", "global", "advice", "ABC"];
    let mut cat: Vec<Adv> = kinds(["f", "a", "r"], " body ");
    for i in 0..names.len() {
        let t = [names[i], names[(i + 1) % names.len()], names[(i + 5) % names.len()]];
        cat.extend(kinds(t, ["", "x", "\n let q = (1);\n", "é🟢", "<<<", "a|#b", "return 0;"][i % 7]));
    }
    cat
}
/// Words a program may well use as names: those of the language, of its documentation, of the examples and of the code generated.
const WORDS: [&str; 96] = [
    "aspect", "global", "advice", "apply", "call", "pre", "post", "block", "loop", "select", "callindirect", "if", "then", "else", "ifthen", "ifthenelse", "br", "brif", "brtable", "Mut", "mut",
    "WasmFunction", "FunctionIndex", "FunctionTable", "FunctionTableIndex", "Condition", "Label", "Target", "Default", "MutDynArgs", "MutDynResults", "DynArgs", "DynResults", "Args", "Results",
    "F", "I", "i", "f", "func", "fn", "function", "fun", "args", "argument", "arguments", "arg", "ress", "res", "result", "results", "ret", "cond", "condition", "path", "kontinuation", "continuation",
    "label", "target", "default", "table", "index", "idx", "self", "this", "wasm", "wasp", "specialised", "instrumented", "base", "trap", "generic", "GUEST", "guest", "let", "const", "export", "return",
    "type", "class", "true", "false", "null", "undefined", "string", "number", "boolean", "static", "load", "store", "memory", "import", "and", "or", "toString", "hasOwnProperty",
];
/// All programs of one advice whose formals are any three different of the `WORDS`.
fn words(kind: usize, f: impl Fn(&[Adv]) + Sync) -> u64 {
    let n = WORDS.len() as u64;
    // The kinds with fewer formals see the same names again: one pass over those.
    let of = [0, 1, 1, 0, 0, 0, 0, 1, 2, 1, 1, 1, 2, 2, 3, 3, 3, 3, 3][kind];
    let dims = vec![n; of];
    let total = dims.iter().product();
    par(total, |i| {
        let mut d = digits(i, &dims);
        if (1..d.len()).any(|k| d[..k].contains(&d[k])) {
            return;
        }
        while d.len() < 3 {
            d.push((0..).find(|k| !d.contains(k)).unwrap());
        }
        f(&[kinds([WORDS[d[0]], WORDS[d[1]], WORDS[d[2]]], "b")[kind].clone()]);
        ctx_count(&SPEC);
    });
    take(&SPEC)
}
fn c01(ctx: &Ctx) {
    let cat = catalogue();
    // every name of the words for every formal
    for kind in 0..19 {
        let n = words(kind, |p| compare_program(ctx, &render(p), p));
        ctx.add("programs_names", n);
    }
    // every ordered pair from the catalogue
    let n = cat.len() as u64;
    par(n * n, |i| {
        let d = digits(i, &[n, n]);
        let p = [cat[d[0]].clone(), cat[d[1]].clone()];
        compare_program(ctx, &render(&p), &p);
    });
    ctx.add("programs_pairs_of_catalogue", n * n);
    // every sequence of the 19 kinds up to a length, each advice with its own body and names
    let depth = if ctx.thorough { 5 } else { 4 };
    let per_pos: Vec<Vec<Adv>> =
        (0..depth).map(|i| kinds([["p", "q", "r", "s", "t"][i], ["pa", "qa", "ra", "sa", "ta"][i], "z"], ["B0", "B1", "B2", "B3", "B4"][i])).collect();
    for len in 0..=depth {
        let k = 19u64;
        let total = k.pow(len as u32);
        par(total, |i| {
            let d = digits(i, &vec![k; len]);
            let p: Vec<Adv> = d.iter().enumerate().map(|(pos, x)| per_pos[pos][*x].clone()).collect();
            compare_program(ctx, &render(&p), &p);
        });
        ctx.add("programs_sequences_of_kinds", total);
        ctx.sample(json!(render(&digits(total / 3, &vec![k; len]).iter().enumerate().map(|(q, x)| per_pos[q][*x].clone()).collect::<Vec<_>>())));
    }
    // every specialised signature
    let m = if ctx.thorough { 5 } else { 4 };
    let lists = ty_lists(1, m);
    let l = lists.len() as u64;
    par(2 * l * l, |i| {
        let d = digits(i, &[l, l, 2]);
        if lists[d[0]].len() + lists[d[1]].len() > 6 {
            return;
        }
        let p = [spe(d[2] == 1, &lists[d[0]], &lists[d[1]], "b")];
        compare_program(ctx, &render(&p), &p);
        ctx_count(&SPEC);
    });
    ctx.add("programs_specialised_signatures", take(&SPEC));
    // long programs
    for len in [6, 20, 100, 400, 20000, 200000] {
        let p: Vec<Adv> = (0..len).map(|i| cat[(i * 7 + len) % cat.len()].clone()).collect();
        compare_program(ctx, &render(&p), &p);
        ctx.add("programs_long", 1);
    }
    // every length, of one kind and of all kinds in turn
    let base = kinds(["f", "a", "r"], "b");
    let max = if ctx.thorough { 600u64 } else { 300 };
    par(20 * max, |i| {
        let d = digits(i, &[20, max]);
        let p: Vec<Adv> = (0..d[1]).map(|j| base[if d[0] == 19 { (j * 7) % 19 } else { d[0] }].clone()).collect();
        compare_program(ctx, &render(&p), &p);
    });
    ctx.add("programs_long", 20 * max);
    // wide signatures: any two lengths, and one type deviating at each place
    let l = LENGTHS.len() as u64;
    par(l * l * 2, |i| {
        let d = digits(i, &[l, l, 2]);
        let (a, r) = (LENGTHS[d[0]], LENGTHS[d[1]]);
        let cycle = |n: usize, o: usize| (0..n).map(|k| TYS[(k * k + k / 3 + o) % 4]).collect::<Vec<_>>();
        let p = [wide(d[2] == 1, &cycle(a, 0), &cycle(r, 1), "b"), Adv::Global(s("g"))];
        compare_program(ctx, &render(&p), &p);
        ctx_count(&SPEC);
        if a + r <= 24 {
            for k in 0..a + r {
                let (mut x, mut y) = (vec![Ty::I32; a], vec![Ty::I32; r]);
                let t = TYS[1 + k % 3];
                if k < a {
                    x[k] = t;
                } else {
                    y[k - a] = t;
                }
                let p = [wide(d[2] == 1, &x, &y, "b")];
                compare_program(ctx, &render(&p), &p);
                ctx_count(&SPEC);
            }
        }
    });
    ctx.add("programs_specialised_signatures", take(&SPEC));
    // every name of one or two letters, and long names, for each formal of each kind
    let letters: Vec<String> = (b'a'..=b'z').chain(b'A'..=b'Z').map(|c| (c as char).to_string()).collect();
    let mut all: Vec<String> = letters.iter().flat_map(|a| letters.iter().map(move |b| format!("{a}{b}"))).collect();
    all.extend(letters.clone());
    for n in LENGTHS.iter().chain(&[255, 256, 1000, 1024, 1025, 5000, 65536]) {
        all.push("xY".repeat(*n)[..*n].to_string());
    }
    par(all.len() as u64, |i| {
        let n = &all[i as usize];
        for t in [[n.as_str(), "mmmmm", "rrr"], ["mmmmm", n, "rrr"], ["mmmmm", "rrr", n]] {
            for (k, a) in kinds(t, "b").into_iter().enumerate() {
                if n.len() > 2 && k > 0 && n.len() % 2 == 1 && n.len() > 1025 {
                    continue;
                }
                let p = [a];
                compare_program(ctx, &render(&p), &p);
                ctx_count(&SPEC);
            }
        }
    });
    ctx.add("programs_names", take(&SPEC));
    // names shared between two advice, in every pattern; names that differ only in case
    let pool = ["a", "b", "A"];
    let pats: Vec<[usize; 3]> = (0..27).map(|i| digits(i, &[3, 3, 3])).filter(|d| d[0] != d[1] && d[1] != d[2] && d[0] != d[2]).map(|d| [d[0], d[1], d[2]]).collect();
    let np = pats.len() as u64;
    par(19 * 19 * np * np, |i| {
        let d = digits(i, &[19, 19, np, np]);
        let n = |k: usize| pats[k].map(|x| pool[x]);
        let p = [kinds(n(d[2]), "b")[d[0]].clone(), kinds(n(d[3]), "b")[d[1]].clone()];
        compare_program(ctx, &render(&p), &p);
    });
    ctx.add("programs_names", 19 * 19 * np * np);
    // the marker recorded for specialised advice
    for mm in [false, true] {
        let p = [spe(mm, &[Ty::I32], &[Ty::F64], "b")];
        if let Ok(r) = wasp_compiler::compile(&render(&p)) {
            use wasp_compiler::ast::wasp::*;
            if let AdviceDefinition::AdviceTrap(TrapSignature::TrapApply(TrapApply { apply_hook_signature: ApplyHookSignature::Spe(a), .. })) = &r.wasp_root.0[0] {
                if a.mutable_signature != mm {
                    ctx.violation(&format!("specialised-apply-marker-inverted:{mm}"), || render(&p));
                }
            }
        }
    }
    totals(ctx, "every program is a sequence of advice from the catalogue with its own names and body; non-trivial = at least one advice");
}

static SPEC: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn ctx_count(c: &std::sync::atomic::AtomicU64) {
    c.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}
fn take(c: &std::sync::atomic::AtomicU64) -> u64 {
    c.swap(0, std::sync::atomic::Ordering::Relaxed)
}

/// Evaluations = all counters starting with `programs`.
fn totals(ctx: &Ctx, rule: &str) {
    let mut ev = 0;
    for k in [
        "programs_pairs_of_catalogue", "programs_sequences_of_kinds", "programs_specialised_signatures", "programs_long",
        "programs_signature_pairs", "programs_signature_order", "programs_layout_1", "programs_layout_2", "programs_guest", "programs_tokens",
        "programs_mutated", "programs_names", "programs_parameter_patterns", "programs_types",
    ] {
        ev += ctx.get(k);
    }
    ctx.add("evaluations", ev);
    if ctx.get("distinct_nontrivial") == 0 {
        ctx.add("distinct_nontrivial", ev.saturating_sub(1));
    }
    ctx.set("rule", json!(rule));
    ctx.set("exhaustive", json!(true));
}

/// Breadth-first search over the reachable join-point sets: a state is the set collected so far,
/// a transition compiles the program that reaches the state extended by one more advice.
fn c02(ctx: &Ctx, queries_only: bool) {
    let alphabet: Vec<Adv> = {
        let k = kinds(["f", "a", "r"], "b");
        let mut v: Vec<Adv> = k[..15].to_vec(); // global, 13 traps, one generic apply
        v.push(spe(false, &[Ty::I32], &[Ty::F64], "b"));
        v.push(spe(true, &[Ty::F64], &[Ty::I32], "b"));
        v
    };
    let n_events = alphabet.len();
    // level by level so that the levels can be explored in parallel
    let mut seen: HashMap<Joins, Vec<u8>> = HashMap::new();
    let start = vec![];
    seen.insert(Joins::default(), start.clone());
    let mut frontier: Vec<Vec<u8>> = vec![start];
    let mut transitions = 0u64;
    let mut depth = 0;
    while !frontier.is_empty() {
        let found: Mutex<Vec<(Joins, Vec<u8>)>> = Mutex::new(vec![]);
        par(frontier.len() as u64 * n_events as u64, |i| {
            let d = digits(i, &[frontier.len() as u64, n_events as u64]);
            // the new advice first or last: both must give the union
            for front in [false, true] {
                let mut h = frontier[d[0]].clone();
                if front {
                    h.insert(0, d[1] as u8);
                } else {
                    h.push(d[1] as u8);
                }
                let p: Vec<Adv> = h.iter().map(|e| alphabet[*e as usize].clone()).collect();
                let text = render(&p);
                match see(&text) {
                    Seen::Ok { ast, joins: j, queries: q } => {
                        let want = joins(&p);
                        if !queries_only && j != want {
                            report(ctx, &text, format!("join points differ\n  want {want:?}\n  got  {j:?}"));
                        }
                        let wq = queries(&p);
                        if queries_only && q != wq {
                            report(ctx, &text, format!("support queries (generic apply, branch, call) differ\n  want {wq:?}\n  got  {q:?}"));
                        }
                        if ast.len() != p.len() {
                            report(ctx, &text, format!("{} advice written, {} in the tree", p.len(), ast.len()));
                        }
                        if !front {
                            found.lock().unwrap().push((want, h));
                        }
                    }
                    o => report(ctx, &text, format!("legal program not compiled: {o:?}")),
                }
            }
        });
        transitions += 2 * frontier.len() as u64 * n_events as u64;
        let mut next = vec![];
        let mut f = found.into_inner().unwrap();
        f.sort_by(|a, b| a.1.cmp(&b.1));
        for (j, h) in f {
            if !seen.contains_key(&j) {
                seen.insert(j, h.clone());
                next.push(h);
            }
        }
        frontier = next;
        depth += 1;
        // quick tier: bound the depth from both ends is not needed, the lattice is small
        if !ctx.thorough && depth > 16 {
            break;
        }
        if ctx.violated() {
            break;
        }
    }
    // order and repetition: every sequence over a smaller alphabet
    let small: Vec<usize> = vec![0, 1, 2, 6, 8, 9, 10, 12, 13, 14, 15, 16];
    let len = if ctx.thorough { 5 } else { 4 };
    for l in 0..=len {
        let total = (small.len() as u64).pow(l as u32);
        par(total, |i| {
            let d = digits(i, &vec![small.len() as u64; l]);
            let p: Vec<Adv> = d.iter().map(|x| alphabet[small[*x]].clone()).collect();
            let text = render(&p);
            if let Seen::Ok { joins: j, queries: q, .. } = see(&text) {
                if (!queries_only && j != joins(&p)) || (queries_only && q != queries(&p)) {
                    report(ctx, &text, format!("join points or queries differ\n  want {:?} {:?}\n  got  {j:?} {q:?}", joins(&p), queries(&p)));
                }
            } else {
                report(ctx, &text, s("legal program not compiled"));
            }
        });
        ctx.add("ordered_sequences_compared", total);
    }
    // many of one kind with one of another kind in front, behind or in the middle
    let ne = n_events as u64;
    par(ne * ne * LENGTHS.len() as u64 * 3, |i| {
        let d = digits(i, &[ne, ne, LENGTHS.len() as u64, 3]);
        let n = LENGTHS[d[2]];
        let mut p = vec![alphabet[d[0]].clone(); n];
        p.insert([0, n / 2, n][d[3]], alphabet[d[1]].clone());
        let text = render(&p);
        match see(&text) {
            Seen::Ok { joins: j, queries: q, .. } if (queries_only || j == joins(&p)) && (!queries_only || q == queries(&p)) => {}
            o => report(ctx, &text, format!("{n} of one kind and one of another: want {:?} {:?}, got {}", joins(&p), queries(&p), match o {
                Seen::Ok { joins, queries, .. } => format!("{joins:?} {queries:?}"),
                o => format!("{o:?}"),
            })),
        }
    });
    ctx.add("ordered_sequences_compared", ne * ne * LENGTHS.len() as u64 * 3);
    // names and guest text never change what is instrumented
    let judge_one = |p: &[Adv]| {
        let text = render(p);
        match see(&text) {
            Seen::Ok { joins: j, queries: q, .. } if (queries_only || j == joins(p)) && (!queries_only || q == queries(p)) => {}
            o => report(ctx, &text, format!("want {:?} {:?}, got {o:?}", joins(p), queries(p))),
        }
    };
    let cat = catalogue();
    let n = cat.len() as u64;
    par(n * n, |i| {
        let d = digits(i, &[n, n]);
        judge_one(&[cat[d[0]].clone(), cat[d[1]].clone()]);
    });
    let mut names: Vec<[String; 3]> = [["Mut", "pre", "post"], ["generic", "call", "select"], ["Condition", "Target", "Label"]].iter().map(|t| t.map(s)).collect();
    for l in LENGTHS.iter().chain(&[1000, 5000]) {
        names.push(["x", "y", "z"].map(|c| c.repeat(*l)));
        names.push(["a", "b", "c"].map(|c| format!("{}{c}", "q".repeat(*l))));
    }
    let frags = ["", "x", " ", "\n", "#|", "|#", "(", ")", "<<<", ">>>GUEST>>>", "\"", "é", "return", "pre", "post", "call", "(advice call pre (f FunctionIndex)", "Mut", "\0", "0", "//"];
    let mut bodies: Vec<String> = frags.iter().flat_map(|a| frags.iter().map(move |b| format!("{a}{b}"))).collect();
    bodies.extend(LENGTHS.iter().map(|l| "b ".repeat(*l)));
    for t in &names {
        for a in kinds([&t[0], &t[1], &t[2]], "x") {
            judge_one(&[a]);
        }
    }
    for kind in 0..19 {
        let n = words(kind, judge_one);
        ctx.add("ordered_sequences_compared", n);
    }
    par(bodies.len() as u64, |i| {
        let b = &bodies[i as usize];
        for a in kinds(["f", "a", "r"], b) {
            judge_one(&[a.clone()]);
            judge_one(&[Adv::Global(b.clone()), a, Adv::Global(b.clone())]);
        }
    });
    ctx.add("ordered_sequences_compared", n * n + names.len() as u64 * 19 + bodies.len() as u64 * 38);
    ctx.add("states", seen.len() as u64);
    ctx.add("transitions", transitions);
    ctx.add("traces_validated_against_impl", transitions + ctx.get("ordered_sequences_compared"));
    ctx.set("search_depth", json!(depth));
    ctx.set("exhaustive", json!(true));
    let mut some: Vec<_> = seen.iter().map(|(j, h)| (h.clone(), j.clone())).collect();
    some.sort();
    for (h, j) in some.iter().step_by(some.len() / 5 + 1) {
        ctx.sample(json!({"advice": h, "join_points": format!("{j:?}")}));
    }
}

fn c03(ctx: &Ctx) {
    let m = if ctx.thorough { 3 } else { 2 };
    let lists = ty_lists(1, m);
    let sigs: Vec<(Vec<Ty>, Vec<Ty>)> =
        lists.iter().flat_map(|a| lists.iter().map(move |r| (a.clone(), r.clone()))).collect();
    // singles with long lists
    let long = ty_lists(1, if ctx.thorough { 5 } else { 4 });
    let l = long.len() as u64;
    par(l * l * 2, |i| {
        let d = digits(i, &[l, l, 2]);
        let p = [spe(d[2] == 1, &long[d[0]], &long[d[1]], "b")];
        check_joins(ctx, &p);
    });
    ctx.add("programs_specialised_signatures", 2 * l * l);
    // pairs (quick: total of 400 x 400 x 4 markers, thorough: all pairs where one is small)
    let n = sigs.len() as u64;
    let step = if n > 2000 { 17 } else { 1 };
    let second: Vec<usize> = (0..sigs.len()).step_by(step).collect();
    par(n * second.len() as u64 * 4, |i| {
        let d = digits(i, &[n, second.len() as u64, 4]);
        let (a, b) = (&sigs[d[0]], &sigs[second[d[1]]]);
        let p = [spe(d[2] & 1 == 1, &a.0, &a.1, "b"), spe(d[2] & 2 == 2, &b.0, &b.1, "c")];
        check_joins(ctx, &p);
    });
    ctx.add("programs_signature_pairs", n * second.len() as u64 * 4);
    // sequences (with repetition) over colliding signatures, interleaved with other advice
    use Ty::*;
    let ev: Vec<Adv> = vec![
        spe(false, &[I32], &[I32], "b"),
        spe(true, &[I32], &[I32], "b"),
        spe(false, &[I32, I32], &[I32], "b"),
        spe(false, &[I32], &[I32, I32], "b"),
        spe(true, &[I32], &[F32], "b"),
        spe(true, &[F32], &[I32], "b"),
        Adv::ApplyGen { means: 1, f: s("f"), a: s("a"), r: s("r"), body: s("b") },
        Adv::Global(s("b")),
    ];
    let len = if ctx.thorough { 6 } else { 5 };
    for k in 0..=len {
        let total = 8u64.pow(k);
        par(total, |i| {
            let d = digits(i, &vec![8; k as usize]);
            let p: Vec<Adv> = d.iter().map(|x| ev[*x].clone()).collect();
            check_joins(ctx, &p);
        });
        ctx.add("programs_signature_order", total);
    }
    ctx.sample(json!(render(&[ev[2].clone(), ev[3].clone(), ev[1].clone()])));
    // every split of one list of types into arguments and results, two splits per program and all in one program
    let top = if ctx.thorough { 40 } else { 24 };
    par(top, |i| {
        let n = 2 + i as usize;
        for c in 0..3 {
            let t: Vec<Ty> = (0..n).map(|k| TYS[if c == 0 { 0 } else { (k * c + k / 3) % 4 }]).collect();
            let all: Vec<Adv> = (1..n).map(|k| wide(k % 2 == 0, &t[..k], &t[k..], "b")).collect();
            check_joins(ctx, &all);
            for x in &all {
                for y in &all {
                    check_joins(ctx, &[x.clone(), y.clone()]);
                    ctx_count(&SPEC);
                }
            }
        }
    });
    // one long signature and the same with one type changed
    let l = LENGTHS.len() as u64;
    par(l * 5 * 2 * 3, |i| {
        let d = digits(i, &[l, 5, 2, 3]);
        let (n, m) = (LENGTHS[d[0]], [1, 2, 4, 9, 33][d[1]]);
        let t: Vec<Ty> = (0..n).map(|k| TYS[(k * k) % 4]).collect();
        let u: Vec<Ty> = (0..m).map(|k| TYS[(k + 1) % 4]).collect();
        for k in 0..n {
            let mut v = t.clone();
            v[k] = TYS[(TYS.iter().position(|x| *x == t[k]).unwrap() + 1 + d[3]) % 4];
            let p = if d[2] == 0 { [wide(false, &t, &u, "b"), wide(false, &v, &u, "b")] } else { [wide(true, &u, &t, "b"), wide(true, &u, &v, "b")] };
            check_joins(ctx, &p);
            ctx_count(&SPEC);
        }
    });
    // many signatures in one program, in order and reversed, with and without repetition
    par(max_many(ctx), |i| {
        let mut p: Vec<Adv> = (0..i as usize).map(|k| wide(k % 3 == 0, &lists_of(k / 7 + k), &lists_of(k * 5 / 3), "b")).collect();
        check_joins(ctx, &p);
        p.reverse();
        check_joins(ctx, &p);
        p.extend(p.clone());
        check_joins(ctx, &p);
        ctx_count(&SPEC);
    });
    ctx.add("programs_signature_order", take(&SPEC));
    totals(ctx, "programs of specialised apply advice over every type list up to the bound, singly, in pairs and in sequences with repetition; non-trivial = at least one specialised advice");
}

fn max_many(ctx: &Ctx) -> u64 {
    if ctx.thorough { 600 } else { 300 }
}
/// The k-th list of types, shortest first.
fn lists_of(mut k: usize) -> Vec<Ty> {
    let mut n = 1;
    while k >= 4usize.pow(n) {
        k -= 4usize.pow(n);
        n += 1;
    }
    (0..n).map(|i| TYS[(k >> (2 * i)) % 4]).collect()
}
fn check_joins(ctx: &Ctx, p: &[Adv]) {
    let text = render(p);
    let want = joins(p);
    match see(&text) {
        Seen::Ok { joins: j, .. } => {
            if j != want {
                report(ctx, &text, format!("signatures differ (results, arguments)\n  want {want:?}\n  got  {j:?}"));
            }
        }
        o => report(ctx, &text, format!("legal program not compiled: {o:?}")),
    }
}

fn c04(ctx: &Ctx) {
    let cls: Mutex<HashMap<String, u64>> = Mutex::new(HashMap::new());
    let tally = |v: &Seen| {
        let k = match v {
            Seen::Ok { .. } => "accepted",
            Seen::Syntax(_) => "syntax error",
            Seen::Panic(_) => "panic",
            Seen::Conversion(_) => "conversion error",
            Seen::NonUnique(_) => "non unique parameters",
            Seen::Within(_) => "duplicate parameter",
            Seen::Across(_) => "parameter shared by arguments and results",
            Seen::GenericTypes(..) => "wrong generic types",
            Seen::ValueType(..) => "unsupported value type",
        };
        *cls.lock().unwrap().entry(s(k)).or_insert(0) += 1;
    };
    // 1. parameter name patterns: every assignment of 3 names to the formals of every kind
    let nm = ["a", "b", "c"];
    for k in 0..19usize {
        par(27, |i| {
            let d = digits(i, &[3, 3, 3]);
            let a = kinds([nm[d[0]], nm[d[1]], nm[d[2]]], "b")[k].clone();
            tally(&compare(ctx, &render(&[Adv::Global(s("g")), a.clone()])));
            tally(&compare(ctx, &render(&[a.clone(), a])));
        });
        ctx.add("programs_parameter_patterns", 54);
    }
    // specialised: every assignment of 4 names to f + up to 3 args + up to 2 results (type cycling)
    for na in 1..=3usize {
        for nr in 1..=3usize {
            let n = 1 + na + nr;
            let total = 4u64.pow(n as u32);
            if !ctx.thorough && n > 6 {
                continue;
            }
            par(total, |i| {
                let d = digits(i, &vec![4; n]);
                let name = |q: usize| s(["a", "b", "c", "dd"][d[q]]);
                let p = [Adv::ApplySpe {
                    marked_mut: (i % 2) == 1,
                    f: name(0),
                    args: (0..na).map(|q| (name(1 + q), TYS[q % 4])).collect(),
                    ress: (0..nr).map(|q| (name(1 + na + q), TYS[(q + 1) % 4])).collect(),
                    body: s("b"),
                }];
                tally(&compare(ctx, &render(&p)));
            });
            ctx.add("programs_parameter_patterns", total);
        }
    }
    // long lists: any two formals share a name, or differ only in case, or one has an unsupported type
    let shapes: Vec<(usize, usize)> = (1..=9).flat_map(|a| (1..=9).map(move |r| (a, r))).chain([(20, 1), (1, 20), (17, 17), (40, 2), (2, 40), (33, 1)]).collect();
    par(shapes.len() as u64 * 2, |i| {
        let d = digits(i, &[shapes.len() as u64, 2]);
        let (na, nr) = shapes[d[0]];
        let n = 1 + na + nr;
        let make = |names: &[String]| Adv::ApplySpe {
            marked_mut: d[1] == 1,
            f: names[0].clone(),
            args: (0..na).map(|q| (names[1 + q].clone(), TYS[q % 4])).collect(),
            ress: (0..nr).map(|q| (names[1 + na + q].clone(), TYS[(q + 1) % 4])).collect(),
            body: s("b"),
        };
        let names: Vec<String> = (0..n).map(name_of).collect();
        for x in 0..n {
            for y in 0..x {
                for case in 0..2 {
                    let mut m = names.clone();
                    m[y] = if case == 0 { m[x].clone() } else { m[x].to_uppercase() };
                    tally(&compare(ctx, &render(&[make(&m)])));
                    ctx_count(&SPEC);
                }
            }
            if x > 0 {
                let t = render(&[make(&names)]);
                for bad in ["V128", "I33", "Args", "Results"] {
                    let (k, name) = (x, &names[x]);
                    let ty = TYS[if k <= na { (k - 1) % 4 } else { (k - na) % 4 }].name();
                    let old = format!("( {name} {ty} )");
                    assert!(t.contains(&old), "{t} {old}");
                    tally(&compare(ctx, &t.replacen(&old, &format!("( {name} {bad} )"), 1)));
                    ctx_count(&SPEC);
                }
            }
        }
    });
    ctx.add("programs_parameter_patterns", take(&SPEC));
    // names that agree up to some length, or differ only in case, in every kind
    for k in 0..19usize {
        par(LENGTHS.len() as u64 * 6, |i| {
            let d = digits(i, &[LENGTHS.len() as u64, 6]);
            let n = "q".repeat(LENGTHS[d[0]]);
            let (x, y) = (format!("{n}a"), [format!("{n}b"), format!("{n}A"), format!("{n}ab"), format!("a{n}"), n.clone(), format!("{n}a")][d[1]].clone());
            for t in [[x.as_str(), &y, "other"], [&x, "other", &y], ["other", &x, &y]] {
                tally(&compare(ctx, &render(&[kinds(t, "b")[k].clone()])));
                ctx_count(&SPEC);
            }
        });
        ctx.add("programs_parameter_patterns", take(&SPEC));
    }
    // 2. type words: every word in every type position
    let words = [
        "I32", "F32", "I64", "F64", "Args", "Results", "DynArgs", "DynResults", "MutDynArgs", "MutDynResults", "I3", "I322",
        "i32", "Mut", "I", "V128", "FuncRef", "WasmFunction", "ArgsX", "I32 I32", "MutArgs", "MutResults", "DYNArgs", "Dyn",
        "Int", "Integer", "Long", "Float", "Double", "Number", "Bool", "Boolean", "Byte", "Char", "String", "Any", "AnyRef", "ExternRef", "Ref", "Void", "Unit",
        "I8", "I16", "U8", "U16", "U32", "U64", "S32", "S64", "F16", "F128", "I128", "I32x4", "I64x2", "F32x4", "F64x2", "I8x16", "I032", "F064", "I32Args", "ArgsI32", "Arg", "Result", "Argss",
        "MutI32", "I32Mut", "Ptr", "Pointer", "Isize", "Usize", "Index", "FunctionIndex", "FunctionTable", "FunctionTableIndex", "Condition", "Label", "Target", "Default",
    ];
    let w = words.len() as u64;
    par(w * w, |i| {
        let d = digits(i, &[w, w]);
        let (x, y) = (words[d[0]], words[d[1]]);
        for t in [
            format!("(aspect (advice apply (f WasmFunction) (a {x}) (r {y}) >>>GUEST>>>b<<<GUEST<<<))"),
            format!("(aspect (advice apply (f WasmFunction) ((a {x})) ((r {y})) >>>GUEST>>>b<<<GUEST<<<))"),
            format!("(aspect (advice apply (f WasmFunction) (Mut (a {x})) (Mut (r {y})) >>>GUEST>>>b<<<GUEST<<<))"),
            format!("(aspect (advice apply (f WasmFunction) ((a I32) (b {x})) ((r F32) (s {y})) >>>GUEST>>>b<<<GUEST<<<))"),
            format!("(aspect (advice apply (f {x}) (a Args) (r {y}) >>>GUEST>>>b<<<GUEST<<<))"),
            format!("(aspect (advice call pre (f {x}) >>>GUEST>>>b<<<GUEST<<<) (advice select (c {y}) >>>GUEST>>>b<<<GUEST<<<))"),
        ] {
            tally(&compare(ctx, &t));
        }
    });
    ctx.add("programs_types", w * w * 6);
    // every type name of two or three characters
    let chars: Vec<char> = ('A'..='Z').chain('a'..='z').chain('0'..='9').collect();
    let c = chars.len() as u64;
    par(26 * c * (c + 1), |i| {
        let d = digits(i, &[26, c, c + 1]);
        let x: String = [Some(&chars[d[0]]), Some(&chars[d[1]]), chars.get(d[2])].into_iter().flatten().collect();
        tally(&compare(ctx, &format!("(aspect (advice apply (f WasmFunction) ((a {x})) ((r I64)) >>>GUEST>>>b<<<GUEST<<<))")));
        tally(&compare(ctx, &format!("(aspect (advice apply (f WasmFunction) (Mut (a F32)) (Mut (r {x})) >>>GUEST>>>b<<<GUEST<<<))")));
    });
    ctx.add("programs_types", 26 * c * (c + 1) * 2);
    // 3. every token string up to a bound, in several contexts
    let g = ">>>GUEST>>>b<<<GUEST<<<";
    let contexts: Vec<(&str, &str, Vec<&str>, usize)> = vec![
        // whole program
        ("", "", vec!["(", ")", "aspect", "global", "advice", g, "select", "(c Condition)"], if ctx.thorough { 8 } else { 7 }),
        // one advice
        ("(aspect (", "))", vec!["global", "advice", "apply", "call", "call_indirect", "block", "loop", "pre", "post", "select", "if_then", "if_then_else",
            "br_if", "br_table", "(f WasmFunction)", "(t FunctionIndex)", "(t FunctionTable)", "(i FunctionTableIndex)",
            "(c Condition)", "(l Label)", "(t Target)", "(d Default)", g, "(a Args)", "(r Results)", "((a I32))", "(Mut (r I32))"], if ctx.thorough { 5 } else { 4 }),
        // formals of an apply advice
        ("(aspect (advice apply (f WasmFunction)", &*Box::leak(format!("{g}))").into_boxed_str()),
            vec!["(", ")", "a", "b", "I32", "F64", "Mut", "Args", "Results"], if ctx.thorough { 8 } else { 7 }),
        // tail of every kind
        ("(aspect (advice if_then", "))", vec!["_else", "(", ")", "c", "Condition", g, "_", "Label"], if ctx.thorough { 7 } else { 6 }),
        ("(aspect (advice br_", "))", vec!["if", "table", "(c Condition)", "(l Label)", "(t Target)", "(d Default)", "(x", ")", "Target", g, g], if ctx.thorough { 6 } else { 5 }),
        ("(aspect (advice ca", "))", vec!["ll", "_indirect", "pre", "post", "(t FunctionTable)", "(i FunctionTableIndex)", "(f FunctionIndex)", g, "Index"], if ctx.thorough { 7 } else { 6 }),
    ];
    for (pre, post, toks, max) in &contexts {
        for len in 0..=*max {
            let k = toks.len() as u64;
            let total = k.pow(len as u32);
            let oks = std::sync::atomic::AtomicU64::new(0);
            par(total, |i| {
                let d = digits(i, &vec![k; len]);
                let mid = d.iter().map(|x| toks[*x]).collect::<Vec<_>>();
                let t = format!("{pre}{}{}{post}", if pre.ends_with(|c: char| c == '_' || c.is_alphabetic()) { "" } else { " " }, mid.join(" "));
                let r = compare(ctx, &t);
                if matches!(r, Seen::Ok { .. }) {
                    ctx_count(&oks);
                    if i % 7 == 0 && ctx.n_samples() < 12 {
                        ctx.sample(json!(t));
                    }
                }
                if !matches!(r, Seen::Syntax(_)) {
                    tally(&r);
                }
            });
            ctx.add("programs_tokens", total);
            ctx.add("token_strings_accepted", take(&oks));
        }
    }
    // 4. every single-character deletion, insertion, substitution and adjacent swap of the base programs
    let mut bases: Vec<String> = kinds(["f", "a", "r"], "b").into_iter().map(|a| render(&[a])).collect();
    bases.push(render(&kinds(["f", "a", "r"], "b")));
    bases.push(s("(aspect #| c |# (advice call pre (f FunctionIndex) >>>GUEST>>> #| x |# <<<GUEST<<<) (global >>>GUEST>>> y <<<GUEST<<<))"));
    bases.push(render(&[spe(true, &[Ty::I32, Ty::F64], &[Ty::I64, Ty::F32], "b"), spe(false, &[Ty::I64], &[Ty::I64, Ty::I32], "")]));
    let alphabet: Vec<char> = "()_ aAIMzZ6|#<>G\n\t\rü0-\u{a0}\u{feff}\u{b}\u{c}\0;".chars().collect();
    let muts: Mutex<HashSet<String>> = Mutex::new(HashSet::new());
    par(bases.len() as u64, |bi| {
        let b: Vec<char> = bases[bi as usize].chars().collect();
        let mut out = vec![];
        for i in 0..=b.len() {
            if i < b.len() {
                let mut c = b.clone();
                c.remove(i);
                out.push(c);
                for ch in &alphabet {
                    let mut c = b.clone();
                    c[i] = *ch;
                    out.push(c);
                }
            }
            for ch in &alphabet {
                let mut c = b.clone();
                c.insert(i, *ch);
                out.push(c);
            }
            if i + 1 < b.len() {
                let mut c = b.clone();
                c.swap(i, i + 1);
                out.push(c);
            }
            // truncation, and duplication of a prefix
            out.push(b[..i].to_vec());
            out.push([&b[..i], &b[..]].concat());
        }
        if ctx.thorough {
            let once: Vec<Vec<char>> = out.iter().step_by(3).cloned().collect();
            for c in once {
                for i in (0..c.len()).step_by(2) {
                    let mut d = c.clone();
                    d.remove(i);
                    out.push(d);
                }
            }
        }
        let mut m = muts.lock().unwrap();
        for c in out {
            m.insert(c.into_iter().collect());
        }
    });
    let mut muts: Vec<String> = muts.into_inner().unwrap().into_iter().collect();
    muts.sort();
    par(muts.len() as u64, |i| {
        let r = compare(ctx, &muts[i as usize]);
        tally(&r);
    });
    ctx.add("programs_mutated", muts.len() as u64);
    // 5. every edit of one token, and of two tokens: left out, doubled, replaced, put in front, exchanged with its neighbour
    let guest = ">>>GUEST>>>x<<<GUEST<<<";
    let all_tokens: Vec<&str> = vec![
        "(", ")", "aspect", "global", "advice", "apply", "call", "call_indirect", "block", "loop", "pre", "post", "select", "if_then", "if_then_else", "br_if", "br_table", "Mut", "WasmFunction",
        "FunctionIndex", "FunctionTable", "FunctionTableIndex", "Condition", "Label", "Target", "Default", "Args", "Results", "DynArgs", "DynResults", "MutDynArgs", "MutDynResults", "I32", "F64",
        "f", "a", "r", "q", guest, ">>>GUEST>>>", "<<<GUEST<<<", "( q I32 )", "( Mut ( q I32 ) )", "( ( q I32 ) )", "if", "br", "#| c |#",
    ];
    let few_tokens: Vec<&str> = vec!["(", ")", "advice", "apply", "call", "pre", "post", "Mut", "Args", "I32", "f", "q", guest, "( q I32 )", "Condition"];
    let mut bases: Vec<Vec<String>> = kinds(["f", "a", "r"], "b").into_iter().map(|a| program_tokens(&[a])).collect();
    bases.push(program_tokens(&[spe(true, &[Ty::I32, Ty::F64], &[Ty::I64, Ty::F32], "b")]));
    bases.push(program_tokens(&[spe(false, &[Ty::I64], &[Ty::I64, Ty::I32], "")]));
    bases.push(program_tokens(&[Adv::CallPre(s("f"), s("b")), Adv::Global(s("g"))]));
    fn edit(t: &[String], with: &[&str], k: u64) -> Option<Vec<String>> {
        let kinds = 3 + 2 * with.len() as u64;
        let (at, what) = ((k / kinds) as usize, (k % kinds) as usize);
        let mut v = t.to_vec();
        match what {
            0 if at < v.len() => drop(v.remove(at)),
            1 if at < v.len() => v.insert(at, t[at].clone()),
            2 if at + 1 < v.len() => v.swap(at, at + 1),
            w if w >= 3 && (w - 3) / with.len() == 0 => v.insert(at, with[(w - 3) % with.len()].to_string()),
            w if w >= 3 && at < v.len() => v[at] = with[(w - 3) % with.len()].to_string(),
            _ => return None,
        }
        Some(v)
    }
    let n_edits = |t: &[String], with: &[&str]| (t.len() as u64 + 1) * (3 + 2 * with.len() as u64);
    for b in &bases {
        par(n_edits(b, &all_tokens), |i| {
            if let Some(t) = edit(b, &all_tokens, i) {
                tally(&compare(ctx, &t.join(" ")));
                ctx_count(&SPEC);
            }
        });
        let second: &[&str] = if ctx.thorough { &all_tokens } else { &few_tokens };
        par(n_edits(b, second), |i| {
            let Some(t) = edit(b, second, i) else { return };
            for j in 0..n_edits(&t, second) {
                if let Some(u) = edit(&t, second, j) {
                    tally(&compare(ctx, &u.join(" ")));
                    ctx_count(&SPEC);
                }
            }
        });
    }
    ctx.add("programs_mutated", take(&SPEC));
    let c = cls.into_inner().unwrap();
    let nontriv: u64 = c.iter().filter(|(k, _)| *k != "syntax error").map(|(_, v)| v).sum();
    ctx.add("distinct_nontrivial", nontriv);
    ctx.set("answers", json!(c));
    totals(ctx, "token strings, parameter patterns, type words and single-character mutants; non-trivial = the answer is not a plain syntax error");
}

fn c05(ctx: &Ctx) {
    let mut base: Vec<Vec<Adv>> = kinds(["f", "a", "r"], "body").into_iter().map(|a| vec![a]).collect();
    base.push(vec![spe(true, &[Ty::I32, Ty::F64], &[Ty::I64, Ty::F32], "b")]);
    base.push(vec![Adv::Global(s("x")), Adv::IfThenElse(s("c"), s("y")), Adv::Global(s(""))]);
    base.push(vec![]);
    let fillers = [
        "", " ", "\n", "\t", "\r", "\r\n", "   \n\t ", "#||#", " #| c |# ", "#| ( |#", "#| ) |#", "#| aspect |#", "#|\n|#", "#|# |#",
        "#| >>>GUEST>>> |#", "#| <<<GUEST<<< |#", "#| | # |#", "#|a|##|b|#", " #|é🟢|#", "#| #| |#", "#|*|#\n#|*|#",
        "#| c |#\n", "\r\n#| c |#\r\n",
    ];
    let f = fillers.len();
    for p in &base {
        let toks = program_tokens(p);
        let gaps = toks.len() + 1; // before the first, between, after the last
        let build = |dev: &[(usize, usize)], tight: bool| -> Option<String> {
            let mut t = String::new();
            for g in 0..gaps {
                let need = g > 0 && g < toks.len() && needs_gap(&toks[g - 1], &toks[g]);
                let def = if tight && !need { "" } else { " " };
                let fill = dev.iter().find(|(x, _)| *x == g).map(|(_, k)| fillers[*k]).unwrap_or(def);
                if need && fill.is_empty() {
                    return None;
                }
                t.push_str(fill);
                if g < toks.len() {
                    t.push_str(&toks[g]);
                }
            }
            Some(t)
        };
        let run = |dev: &[(usize, usize)], tight: bool, counter: &'static std::sync::atomic::AtomicU64| {
            if let Some(t) = build(dev, tight) {
                compare_program(ctx, &t, p);
                ctx_count(counter);
            }
        };
        // one deviation from the single-space and from the tightest layout
        par((gaps * f * 2) as u64, |i| {
            let d = digits(i, &[gaps as u64, f as u64, 2]);
            run(&[(d[0], d[1])], d[2] == 1, &SPEC);
        });
        // all gaps the same
        for k in 0..f {
            let dev: Vec<_> = (0..gaps).map(|g| (g, k)).collect();
            run(&dev, false, &SPEC);
            let dev: Vec<_> = (0..gaps).filter(|g| !(*g > 0 && *g < toks.len() && needs_gap(&toks[*g - 1], &toks[*g]))).map(|g| (g, k)).collect();
            run(&dev, false, &SPEC);
        }
        ctx.add("programs_layout_1", take(&SPEC));
        // two deviations
        let pick: Vec<usize> = (0..f).collect();
        let q = pick.len() as u64;
        par((gaps * gaps) as u64 * q * q, |i| {
            let d = digits(i, &[gaps as u64, gaps as u64, q, q]);
            if d[0] < d[1] {
                run(&[(d[0], pick[d[2]]), (d[1], pick[d[3]])], (d[0] + d[1]) % 2 == 0, &SPEC);
            }
        });
        ctx.add("programs_layout_2", take(&SPEC));
        ctx.sample(json!(build(&[(2, 8), (3, 15)], true)));
    }
    // every comment made of fragments, in a few gaps; long and many fillers in every gap
    let frags = ["x", " ", "\n", "#", "|", "#|", "(", ")", "\"", "é", "<<<GUEST<<<", ">>>GUEST>>>", "*", "/", ";", "\\", "\0", "##", "||", "aspect", "\r"];
    let k = frags.len() as u64;
    let mut comments = vec![];
    for len in 0..=if ctx.thorough { 4 } else { 3 } {
        for i in 0..k.pow(len as u32) {
            let t: String = digits(i, &vec![k; len]).iter().map(|x| frags[*x]).collect();
            // the terminator must not appear earlier, also not overlapping the end
            if format!("{t}|#").find("|#") == Some(t.len()) {
                comments.push(format!("#|{t}|#"));
            }
        }
    }
    comments.sort();
    comments.dedup();
    let p = vec![Adv::CallPre(s("f"), s(" #| ")), Adv::Global(s("|# x"))];
    let toks = program_tokens(&p);
    let at = |g: usize, fill: &str| {
        let mut t = String::new();
        for (i, tok) in toks.iter().enumerate() {
            if i == g {
                t.push_str(fill);
            } else if i > 0 {
                t.push(' ');
            }
            t.push_str(tok);
        }
        if g == toks.len() {
            t.push_str(fill);
        }
        t
    };
    par(comments.len() as u64 * (toks.len() as u64 + 1), |i| {
        let d = digits(i, &[comments.len() as u64, toks.len() as u64 + 1]);
        // Two comments between words, as long as they stay apart.
        compare_program(ctx, &at(d[1], &comments[d[0]]), &p);
        ctx_count(&SPEC);
    });
    let mut long: Vec<String> = vec![];
    for n in LENGTHS.iter().chain(&[255, 256, 1024, 4096, 65536, 1 << 20]) {
        for f in [" ", "\n", "\r\n", "\t ", "#||#", "#|x|# "] {
            long.push(f.repeat(*n));
        }
        long.push(format!("#|{}|#", "x ".repeat(*n)));
        long.push(format!("#|{}|#", "# | ".repeat(*n)));
    }
    par(long.len() as u64 * (toks.len() as u64 + 1), |i| {
        let d = digits(i, &[long.len() as u64, toks.len() as u64 + 1]);
        compare_program(ctx, &at(d[1], &long[d[0]]), &p);
        ctx_count(&SPEC);
    });
    ctx.add("programs_layout_1", take(&SPEC));
    ctx.set("comments_of_fragments", json!(comments.len()));
    // layout that glues two words is not layout: reference recogniser decides
    for p in &base {
        let toks = program_tokens(p);
        for g in 1..toks.len() {
            let t: String = toks[..g].join(" ") + &toks[g..].join(" ");
            compare(ctx, &t);
            ctx.add("programs_layout_1", 1);
        }
    }
    totals(ctx, "every legal layout with up to two gaps deviating from the default, per base program; non-trivial = the gap text differs from a single space");
}

fn c06(ctx: &Ctx) {
    let frags = [
        "x", " ", "\n", "#|", "|#", "(", ")", "<<<GUEST<<", "<<<GUES", ">>>GUEST>>>", "<", "<<", "\"", "é", "\t", "// ", "\\", "#", "|",
        "\r\n", "GUEST<<<", "aspect", "/*", "$", "\u{0}", "<<<guest<<<", "'", "{", "}", "%", "\r", "`", "\u{feff}", "&lt;", "\\n", ";", "0",
    ];
    let k = frags.len() as u64;
    let max = if ctx.thorough { 4 } else { 3 };
    let distinct: Mutex<HashSet<String>> = Mutex::new(HashSet::new());
    let kk = kinds(["f", "a", "r"], "Z").len() as u64;
    let bodies: Vec<String> = {
        let mut b = BTreeSet::new();
        for len in 0..=max {
            for i in 0..k.pow(len as u32) {
                let d = digits(i, &vec![k; len]);
                let t: String = d.iter().map(|x| frags[*x]).collect();
                if !t.contains("<<<GUEST<<<") && !format!("{t}<<<GUEST<<<")[..].find("<<<GUEST<<<").is_some_and(|p| p < t.len()) {
                    b.insert(t);
                }
            }
        }
        let mut b: Vec<String> = b.into_iter().collect();
        b.sort_by_key(|x| (x.len(), x.clone()));
        b
    };
    ctx.set("distinct_bodies", json!(bodies.len()));
    let n = bodies.len() as u64;
    // each body as the first of two advice, the second opening or closing what the first may have begun
    let tails = ["Z", "|#", "#|", " |# <<<", ">>>GUEST>>>", ""];
    par(n * tails.len() as u64, |i| {
        let d = digits(i, &[n, tails.len() as u64]);
        let b = &bodies[d[0]];
        let kind = (i % kk) as usize;
        let first = kinds(["f", "a", "r"], b)[kind].clone();
        let second = Adv::Global(s(tails[d[1]]));
        let p = [first, second];
        compare_program(ctx, &render(&p), &p);
    });
    ctx.add("programs_guest", n * tails.len() as u64);
    // every kind with every body up to length 2, also as the last advice
    let short: Vec<String> = bodies.iter().take(if ctx.thorough { 20000 } else { 900 }).cloned().collect();
    par(short.len() as u64 * kk, |i| {
        let d = digits(i, &[short.len() as u64, kk]);
        let a = kinds(["f", "a", "r"], &short[d[0]])[d[1]].clone();
        let p = [Adv::IfThen(s("c"), s(" #| ")), a, Adv::Global(s("|#"))];
        compare_program(ctx, &render(&p), &p);
        let p = [p[2].clone(), p[1].clone()];
        compare_program(ctx, &render(&p), &p);
        if i % 997 == 0 {
            distinct.lock().unwrap().insert(short[d[0]].clone());
        }
    });
    ctx.add("programs_guest", 2 * short.len() as u64 * kk);
    // pairs of bodies
    let m = short.len().min(if ctx.thorough { 900 } else { 400 }) as u64;
    par(m * m, |i| {
        let d = digits(i, &[m, m]);
        let p = [Adv::CallPre(s("t"), short[d[0]].clone()), Adv::LoopPost(short[d[1]].clone())];
        compare_program(ctx, &render(&p), &p);
    });
    ctx.add("programs_guest", m * m);
    for b in distinct.into_inner().unwrap().into_iter().take(8) {
        ctx.sample(json!(b));
    }
    // every character of the basic plane and some beyond, as all, beginning and end of a body
    let chars: Vec<char> = (0u32..0x10000).chain([0x1f7e2, 0x10ffff, 0x10000]).filter_map(char::from_u32).collect();
    par(chars.len() as u64, |i| {
        let c = chars[i as usize];
        let p = [Adv::BlockPre(format!("{c}")), Adv::Global(format!("{c}x{c}"))];
        compare_program(ctx, &render(&p), &p);
    });
    ctx.add("programs_guest", chars.len() as u64);
    // every length, of one character
    let lens = if ctx.thorough { 9000u64 } else { 4200 };
    par(lens * 3, |i| {
        let d = digits(i, &[lens, 3]);
        let p = [Adv::LoopPost(["a", "\n", "é"][d[1]].repeat(d[0])), Adv::CallPost(s("t"), s("y"))];
        compare_program(ctx, &render(&p), &p);
    });
    ctx.add("programs_guest", lens * 3);
    // large bodies
    for len in [1usize << 12, 1 << 16, 1 << 18, 1 << 21, (1 << 24) + 1] {
        let b: String = (0..len).map(|i| ['a', ' ', '\n', '(', '#', '|', '<'][(i * i + i / 7) % 7]).collect::<String>().replace("<<<", "<<");
        let p = [Adv::Select(s("c"), b.clone()), Adv::Global(b)];
        compare_program(ctx, &render(&p), &p);
        ctx.add("programs_guest", 1);
    }
    totals(ctx, "every concatenation of fragments up to the bound as guest text, in every kind of advice and before/after advice that could end a comment or block; non-trivial = distinct body");
}

fn main() {
    mc_common::quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|x| x.as_str()) == Some("replay") {
        let t = std::fs::read_to_string(&args[2]).expect("replay file");
        let line = t.lines().find_map(|l| l.strip_prefix("program (JSON string): ")).expect("no program in replay file");
        let text: String = serde_json::from_str(line).unwrap();
        println!("program:\n{text}\n\nreference: {:?}\n\ncompiler:  {:?}", judge(&text), see(&text));
        if let Seen::Ok { ast, .. } = see(&text) {
            println!("\nreference join points {:?} queries {:?}", joins(&ast), queries(&ast));
        }
        std::process::exit(i32::from(disagree(&judge(&text), &see(&text)).is_some()));
    }
    let id = args.get(1).expect("usage: wasp-mc <property>|replay <file>");
    let ctx = Ctx::new(id);
    ctx.assume("the reference recogniser in wasp-mc/src/spec.rs states the documented grammar and static rules");
    let _ = VecDeque::<u8>::new();
    let level = match id.as_str() {
        "C01" => {
            mc_common::decide(&ctx, |c| c01(c));
            "exploration"
        }
        "C02" => {
            mc_common::decide(&ctx, |c| c02(c, false));
            "model_checking"
        }
        "C03" => {
            mc_common::decide(&ctx, |c| c03(c));
            "exploration"
        }
        "C04" => {
            mc_common::decide(&ctx, |c| c04(c));
            "exploration"
        }
        "C05" => {
            mc_common::decide(&ctx, |c| c05(c));
            "exploration"
        }
        "C06" => {
            mc_common::decide(&ctx, |c| c06(c));
            "exploration"
        }
        "C07" => {
            mc_common::decide(&ctx, |c| c02(c, true));
            "model_checking"
        }
        _ => panic!("unknown property {id}"),
    };
    ctx.finish(level)
}
