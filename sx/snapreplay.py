"""Native replay of snapshot counterexamples."""
import json

import core
import gen
import native
import pg
import snap


class Plain:
    """stands in for the machine while the oracle runs on concrete values"""
    known_codes = set()

    def branch(self, c):
        return bool(c)


class Bad(Exception):
    pass


def program(m, sn, cases):
    sh = native.Show(m)
    db, ch = sh.fn(sn.DBT), sh.fn(sn.CH)
    dbt = native.rust_ty(m, sn.DBT)
    cht = native.rust_ty(m, sn.CH)
    cdp = sn.cd_path
    fns, arms = [], []
    for i, (s, t) in enumerate(cases):
        fns.append("fn __s%d() -> %s { %s }\nfn __t%d() -> %s { %s }" % (
            i, dbt, gen.rust_expr(m, s, sn.DBT), i, dbt, gen.rust_expr(m, t, sn.DBT)))
        arms.append("%d => (__s%d(), __t%d(), __s%d())" % (i, i, i, i))
    return sh.text() + "\n".join(fns) + r'''
fn __case(i: usize) -> (%(dbt)s, %(dbt)s, %(dbt)s) { match i { %(arms)s, _ => panic!() } }
fn __trace(i: usize, o: &mut String) {
    let (s, t, mut cur) = __case(i);
    o.push_str("{\"s\":"); %(db)s(&s, o);
    o.push_str(",\"t\":"); %(db)s(&t, o);
    let chs: Vec<%(cht)s> = crate::%(cd)s(&s, &t);
    let (mut changes, mut sql, mut states, mut inverse, mut istates) = (vec![], vec![], vec![], vec![], vec![]);
    let (mut rerr, mut aerr, mut ierr) = (None, None, None);
    let mut revs: Vec<%(cht)s> = vec![];
    for c in chs.iter() { let mut x = String::new(); %(ch)s(c, &mut x); changes.push(x); }
    for (i, c) in chs.iter().enumerate() {
        match c.revert(&cur) { Ok(r) => revs.push(r), Err(_) => { if rerr.is_none() { rerr = Some(i); } } }
        let mut x = String::new(); __js(&c.render_sql(), &mut x); sql.push(x);
        if c.apply(&mut cur).is_err() { aerr = Some(i); break; }
        let mut x = String::new(); %(db)s(&cur, &mut x); states.push(x);
    }
    if rerr.is_none() && aerr.is_none() {
        for c in revs.iter().rev() {
            let mut x = String::from("["); %(ch)s(c, &mut x); x.push(','); __js(&c.render_sql(), &mut x); x.push(']'); inverse.push(x);
        }
        for (i, c) in revs.iter().rev().enumerate() {
            if c.apply(&mut cur).is_err() { ierr = Some(i); break; }
            let mut x = String::new(); %(db)s(&cur, &mut x); istates.push(x);
        }
    }
    let n = |x: Option<usize>| match x { None => "null".to_string(), Some(i) => i.to_string() };
    o.push_str(&format!(",\"changes\":[{}],\"sql\":[{}],\"states\":[{}],\"inverse\":[{}],\"inv_states\":[{}],\"revert_err\":{},\"apply_err\":{},\"inv_err\":{}}}",
        changes.join(","), sql.join(","), states.join(","), inverse.join(","), istates.join(","), n(rerr), n(aerr), n(ierr)));
}
fn main() {
    let n: usize = std::env::args().nth(1).unwrap().parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut seen = std::collections::HashSet::new();
    for i in 0..%(n)d {
        for _ in 0..n {
            let r = std::panic::catch_unwind(|| { let mut o = String::new(); __trace(i, &mut o); o });
            let o = match r { Ok(o) => o, Err(_) => "\"panic\"".to_string() };
            let l = format!("[{},{}]", i, o);
            if seen.insert(l.clone()) { println!("{}", l); }
        }
    }
}
''' % dict(dbt=dbt, db=db, ch=ch, cht=cht, arms=", ".join(arms), cd=cdp, n=len(cases))


def variant(x):
    d = native.decode(x)
    k = x["__variant"]
    d = dict(d)
    d.pop("kind", None)
    return k, d


def judge_native(m, sn, cases, want, known, rounds):
    """run the real code on concrete (source, target) pairs; -> list of (case, message, trace)"""
    exe = native.build(program(m, sn, cases), "snap")
    r = native.run(exe, [str(rounds)], timeout=300)
    out, traces = [], 0
    saved = core.M
    core.M = Plain()
    try:
        for l in r.stdout.splitlines():
            i, j = json.loads(l)
            traces += 1
            if j == "panic":
                out.append((i, "the computation panics", None))
                continue
            tr = dict(j, panic=None)
            for k in ("s", "t"):
                tr[k] = native.decode(j[k])
            for k in ("states", "inv_states"):
                tr[k] = [native.decode(x) for x in j[k]]
            tr["changes"] = [variant(x) for x in j["changes"]]
            tr["inverse"] = [variant(c) + (q,) for c, q in j["inverse"]]

            def bad(msg, code=None, cond=False):
                if cond is False:
                    raise Bad(msg)
            try:
                snap.judge(tr, want, bad, known)
            except Bad as b:
                out.append((i, str(b), j))
    finally:
        core.M = saved
    if r.returncode != 0 or not traces:
        raise RuntimeError("native replay failed: " + r.stderr[-500:])
    return out, traces
