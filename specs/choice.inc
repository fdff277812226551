// ------------------------------------------------------------------ ordered choice, as a function of grammar and tokens
/// a tree
pub struct Tr<L, T> { pub tok: Token<L, T>, pub kids: Seq<Tr<L, T>> }
/// a symbol that could not be parsed
pub struct FS<L, T> { pub sym: T, pub fps: Seq<FP<L, T>> }
/// a candidate that could not be parsed
pub struct FP<L, T> { pub failed: FS<L, T>, pub parsed: Seq<PP<L, T>>, pub pending: Seq<T> }
pub enum PP<L, T> { Ok(Tr<L, T>), Fix }
/// a parsed symbol, with the candidates not yet tried (none for a terminal, and none any more once they have all failed)
pub struct SS<L, T> { pub init: int, pub fin: int, pub tr: Tr<L, T>, pub rest: Option<Seq<Seq<T>>> }
pub enum TR<L, T> { Ok(SS<L, T>), Err(Seq<FP<L, T>>) }
pub enum SR<L, T> { Ok(SS<L, T>), Err(FS<L, T>) }
pub enum PR<L, T> { Ok(Tr<L, T>, int), Err(FP<L, T>) }
pub enum BR<L, T> { Again(Seq<SS<L, T>>), Fail }

pub open spec fn trees<L, T>(st: Seq<SS<L, T>>) -> Seq<Tr<L, T>> { st.map_values(|s: SS<L, T>| s.tr) }
pub open spec fn oks<L, T>(st: Seq<SS<L, T>>) -> Seq<PP<L, T>> { st.map_values(|s: SS<L, T>| PP::Ok(s.tr)) }
pub open spec fn stop<L, T>(st: Seq<SS<L, T>>, p: int) -> int { if st.len() == 0 { p } else { st.last().fin } }
/// the candidates cs of a, in order, at position p: the first that parses
pub open spec fn try_n<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, cs: Seq<Seq<T>>, n: nat) -> Option<TR<L, T>>
    decreases n
{
    if n == 0 { None }
    else if cs.len() == 0 { Some(TR::Err(Seq::empty())) }
    else {
        match prod_n(g, toks, a, p, cs[0], Seq::empty(), (n - 1) as nat) {
            None => None,
            Some(PR::Ok(t, fin)) => Some(TR::Ok(SS { init: p, fin, tr: t, rest: Some(cs.drop_first()) })),
            Some(PR::Err(f)) => more(f, try_n(g, toks, a, p, cs.drop_first(), (n - 1) as nat)),
        }
    }
}
pub open spec fn more<L, T>(f: FP<L, T>, r: Option<TR<L, T>>) -> Option<TR<L, T>> {
    match r { Some(TR::Err(v)) => Some(TR::Err(seq![f] + v)), _ => r }
}
/// the production o of a at position p, whose first symbols have been parsed as st
pub open spec fn prod_n<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, o: Seq<T>, st: Seq<SS<L, T>>, n: nat) -> Option<PR<L, T>>
    decreases n
{
    if n == 0 { None }
    else if st.len() >= o.len() { Some(PR::Ok(Tr { tok: Token { lex: None, t_type: a }, kids: trees(st) }, stop(st, p))) }
    else {
        match sym_n(g, toks, o[st.len() as int], stop(st, p), (n - 1) as nat) {
            None => None,
            Some(SR::Ok(s)) => prod_n(g, toks, a, p, o, st.push(s), (n - 1) as nat),
            Some(SR::Err(f)) => match back_n(g, toks, st, (n - 1) as nat) {
                None => None,
                Some(BR::Again(st2)) => prod_n(g, toks, a, p, o, st2, (n - 1) as nat),
                Some(BR::Fail) => Some(PR::Err(FP { failed: f, parsed: oks(st), pending: o.subrange(st.len() as int + 1, o.len() as int) })),
            },
        }
    }
}
/// the symbol x at position p
pub open spec fn sym_n<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, p: int, n: nat) -> Option<SR<L, T>>
    decreases n
{
    if n == 0 { None }
    else if nt(g, x) { as_sym(x, try_n(g, toks, x, p, cands(g, toks, x, p), (n - 1) as nat)) }
    else { Some(leaf(g, toks, x, p)) }
}
pub open spec fn as_sym<L, T>(x: T, r: Option<TR<L, T>>) -> Option<SR<L, T>> {
    match r { None => None, Some(TR::Ok(s)) => Some(SR::Ok(s)), Some(TR::Err(v)) => Some(SR::Err(FS { sym: x, fps: v })) }
}
pub open spec fn leaf<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, p: int) -> SR<L, T> {
    if x == g.epsilon_symbol { SR::Ok(SS { init: p, fin: p, tr: Tr { tok: Token { lex: None, t_type: x }, kids: Seq::empty() }, rest: None }) }
    else if 0 <= p < toks.len() && toks[p].t_type == x { SR::Ok(SS { init: p, fin: p + 1, tr: Tr { tok: toks[p], kids: Seq::empty() }, rest: None }) }
    else { SR::Err(FS { sym: x, fps: Seq::empty() }) }
}
/// after a failure: the nearest earlier symbol one of whose other candidates parses is resumed
pub open spec fn back_n<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, st: Seq<SS<L, T>>, n: nat) -> Option<BR<L, T>>
    decreases n
{
    if n == 0 { None }
    else if st.len() == 0 { Some(BR::Fail) }
    else if st.last().rest is None { back_n(g, toks, st.drop_last(), (n - 1) as nat) }
    else {
        match try_n(g, toks, st.last().tr.tok.t_type, st.last().init, st.last().rest->Some_0, (n - 1) as nat) {
            None => None,
            Some(TR::Ok(s)) => Some(BR::Again(st.drop_last().push(s))),
            Some(TR::Err(_)) => back_n(g, toks, st.drop_last(), (n - 1) as nat),
        }
    }
}
// a result does not depend on the depth it was computed with
pub proof fn mono_try<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, cs: Seq<Seq<T>>, n: nat, m: nat)
    requires try_n(g, toks, a, p, cs, n) is Some, n <= m,
    ensures try_n(g, toks, a, p, cs, m) == try_n(g, toks, a, p, cs, n),
    decreases n
{
    if cs.len() > 0 {
        mono_prod(g, toks, a, p, cs[0], Seq::empty(), (n - 1) as nat, (m - 1) as nat);
        if prod_n(g, toks, a, p, cs[0], Seq::empty(), (n - 1) as nat)->Some_0 is Err { mono_try(g, toks, a, p, cs.drop_first(), (n - 1) as nat, (m - 1) as nat); }
    }
}
pub proof fn mono_prod<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, o: Seq<T>, st: Seq<SS<L, T>>, n: nat, m: nat)
    requires prod_n(g, toks, a, p, o, st, n) is Some, n <= m,
    ensures prod_n(g, toks, a, p, o, st, m) == prod_n(g, toks, a, p, o, st, n),
    decreases n
{
    if st.len() < o.len() {
        let x = o[st.len() as int];
        mono_sym(g, toks, x, stop(st, p), (n - 1) as nat, (m - 1) as nat);
        match sym_n(g, toks, x, stop(st, p), (n - 1) as nat) {
            None => {}
            Some(SR::Ok(s)) => { mono_prod(g, toks, a, p, o, st.push(s), (n - 1) as nat, (m - 1) as nat); }
            Some(SR::Err(f)) => {
                mono_back(g, toks, st, (n - 1) as nat, (m - 1) as nat);
                match back_n(g, toks, st, (n - 1) as nat) {
                    Some(BR::Again(st2)) => { mono_prod(g, toks, a, p, o, st2, (n - 1) as nat, (m - 1) as nat); }
                    _ => {}
                }
            }
        }
    }
}
pub proof fn mono_sym<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, p: int, n: nat, m: nat)
    requires sym_n(g, toks, x, p, n) is Some, n <= m,
    ensures sym_n(g, toks, x, p, m) == sym_n(g, toks, x, p, n),
    decreases n
{
    if nt(g, x) { mono_try(g, toks, x, p, cands(g, toks, x, p), (n - 1) as nat, (m - 1) as nat); }
}
pub proof fn mono_back<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, st: Seq<SS<L, T>>, n: nat, m: nat)
    requires back_n(g, toks, st, n) is Some, n <= m,
    ensures back_n(g, toks, st, m) == back_n(g, toks, st, n),
    decreases n
{
    if st.len() > 0 {
        if st.last().rest is None { mono_back(g, toks, st.drop_last(), (n - 1) as nat, (m - 1) as nat); }
        else {
            mono_try(g, toks, st.last().tr.tok.t_type, st.last().init, st.last().rest->Some_0, (n - 1) as nat, (m - 1) as nat);
            if try_n(g, toks, st.last().tr.tok.t_type, st.last().init, st.last().rest->Some_0, (n - 1) as nat)->Some_0 is Err { mono_back(g, toks, st.drop_last(), (n - 1) as nat, (m - 1) as nat); }
        }
    }
}
// the results; None: the procedure does not end
pub open spec fn dep_try<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, cs: Seq<Seq<T>>) -> nat { choose|n: nat| try_n(g, toks, a, p, cs, n) is Some }
pub open spec fn dep_prod<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, o: Seq<T>, st: Seq<SS<L, T>>) -> nat { choose|n: nat| prod_n(g, toks, a, p, o, st, n) is Some }
pub open spec fn dep_sym<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, p: int) -> nat { choose|n: nat| sym_n(g, toks, x, p, n) is Some }
pub open spec fn dep_back<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, st: Seq<SS<L, T>>) -> nat { choose|n: nat| back_n(g, toks, st, n) is Some }
#[verifier::opaque]
pub open spec fn v_try<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, cs: Seq<Seq<T>>) -> Option<TR<L, T>> { try_n(g, toks, a, p, cs, dep_try(g, toks, a, p, cs)) }
#[verifier::opaque]
pub open spec fn v_prod<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, o: Seq<T>, st: Seq<SS<L, T>>) -> Option<PR<L, T>> { prod_n(g, toks, a, p, o, st, dep_prod(g, toks, a, p, o, st)) }
#[verifier::opaque]
pub open spec fn v_sym<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, p: int) -> Option<SR<L, T>> { sym_n(g, toks, x, p, dep_sym(g, toks, x, p)) }
#[verifier::opaque]
pub open spec fn v_back<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, st: Seq<SS<L, T>>) -> Option<BR<L, T>> { back_n(g, toks, st, dep_back(g, toks, st)) }
pub proof fn val_try<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, cs: Seq<Seq<T>>, n: nat)
    ensures try_n(g, toks, a, p, cs, n) is Some ==> v_try(g, toks, a, p, cs) == try_n(g, toks, a, p, cs, n),
{
    reveal(v_try);
    let m = dep_try(g, toks, a, p, cs);
    if try_n(g, toks, a, p, cs, n) is Some { if n <= m { mono_try(g, toks, a, p, cs, n, m); } else { mono_try(g, toks, a, p, cs, m, n); } }
}
pub proof fn val_prod<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, o: Seq<T>, st: Seq<SS<L, T>>, n: nat)
    ensures prod_n(g, toks, a, p, o, st, n) is Some ==> v_prod(g, toks, a, p, o, st) == prod_n(g, toks, a, p, o, st, n),
{
    reveal(v_prod);
    let m = dep_prod(g, toks, a, p, o, st);
    if prod_n(g, toks, a, p, o, st, n) is Some { if n <= m { mono_prod(g, toks, a, p, o, st, n, m); } else { mono_prod(g, toks, a, p, o, st, m, n); } }
}
pub proof fn val_sym<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, p: int, n: nat)
    ensures sym_n(g, toks, x, p, n) is Some ==> v_sym(g, toks, x, p) == sym_n(g, toks, x, p, n),
{
    reveal(v_sym);
    let m = dep_sym(g, toks, x, p);
    if sym_n(g, toks, x, p, n) is Some { if n <= m { mono_sym(g, toks, x, p, n, m); } else { mono_sym(g, toks, x, p, m, n); } }
}
pub proof fn val_back<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, st: Seq<SS<L, T>>, n: nat)
    ensures back_n(g, toks, st, n) is Some ==> v_back(g, toks, st) == back_n(g, toks, st, n),
{
    reveal(v_back);
    let m = dep_back(g, toks, st);
    if back_n(g, toks, st, n) is Some { if n <= m { mono_back(g, toks, st, n, m); } else { mono_back(g, toks, st, m, n); } }
}
// ------------------------------------------------------------------ one step of the procedure
pub open spec fn mx(a: nat, b: nat) -> nat { if a > b { a } else { b } }
pub proof fn eq_try<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, cs: Seq<Seq<T>>)
    ensures
        cs.len() == 0 ==> v_try(g, toks, a, p, cs) == Some(TR::<L, T>::Err(Seq::empty())),
        cs.len() > 0 ==> match v_prod(g, toks, a, p, cs[0], Seq::empty()) {
            None => v_try(g, toks, a, p, cs) is None,
            Some(PR::Ok(t, fin)) => v_try(g, toks, a, p, cs) == Some(TR::Ok(SS { init: p, fin, tr: t, rest: Some(cs.drop_first()) })),
            Some(PR::Err(f)) => v_try(g, toks, a, p, cs) == more(f, v_try(g, toks, a, p, cs.drop_first())),
        },
{
    let n = dep_try(g, toks, a, p, cs);
    if cs.len() == 0 { val_try(g, toks, a, p, cs, 1); }
    else {
        let e = Seq::<SS<L, T>>::empty();
        reveal(v_try); reveal(v_prod);
        if v_try(g, toks, a, p, cs) is Some {
            val_prod(g, toks, a, p, cs[0], e, (n - 1) as nat);
            val_try(g, toks, a, p, cs.drop_first(), (n - 1) as nat);
        }
        let i = dep_prod(g, toks, a, p, cs[0], e);
        let j = dep_try(g, toks, a, p, cs.drop_first());
        if v_prod(g, toks, a, p, cs[0], e) is Some && (v_prod(g, toks, a, p, cs[0], e)->Some_0 is Ok || v_try(g, toks, a, p, cs.drop_first()) is Some) {
            let k = mx(i, j);
            mono_prod(g, toks, a, p, cs[0], e, i, k);
            if v_prod(g, toks, a, p, cs[0], e)->Some_0 is Err { mono_try(g, toks, a, p, cs.drop_first(), j, k); }
            val_try(g, toks, a, p, cs, (k + 1) as nat);
        }
    }
}
pub proof fn eq_sym<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, p: int)
    ensures v_sym(g, toks, x, p) == (if nt(g, x) { as_sym(x, v_try(g, toks, x, p, cands(g, toks, x, p))) } else { Some(leaf(g, toks, x, p)) }),
{
    let cs = cands(g, toks, x, p);
    reveal(v_sym); reveal(v_try);
    if !nt(g, x) { val_sym(g, toks, x, p, 1); }
    else {
        let n = dep_sym(g, toks, x, p);
        if v_sym(g, toks, x, p) is Some { val_try(g, toks, x, p, cs, (n - 1) as nat); }
        let i = dep_try(g, toks, x, p, cs);
        if v_try(g, toks, x, p, cs) is Some { val_sym(g, toks, x, p, (i + 1) as nat); }
    }
}
pub proof fn eq_prod<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, o: Seq<T>, st: Seq<SS<L, T>>)
    ensures
        st.len() >= o.len() ==> v_prod(g, toks, a, p, o, st) == Some(PR::Ok(Tr { tok: Token { lex: None, t_type: a }, kids: trees(st) }, stop(st, p))),
        st.len() < o.len() ==> match v_sym(g, toks, o[st.len() as int], stop(st, p)) {
            None => v_prod(g, toks, a, p, o, st) is None,
            Some(SR::Ok(s)) => v_prod(g, toks, a, p, o, st) == v_prod(g, toks, a, p, o, st.push(s)),
            Some(SR::Err(f)) => match v_back(g, toks, st) {
                None => v_prod(g, toks, a, p, o, st) is None,
                Some(BR::Again(st2)) => v_prod(g, toks, a, p, o, st) == v_prod(g, toks, a, p, o, st2),
                Some(BR::Fail) => v_prod(g, toks, a, p, o, st) == Some(PR::Err(FP { failed: f, parsed: oks(st), pending: o.subrange(st.len() as int + 1, o.len() as int) })),
            },
        },
{
    if st.len() >= o.len() { val_prod(g, toks, a, p, o, st, 1); }
    else {
        let x = o[st.len() as int];
        let q = stop(st, p);
        let n = dep_prod(g, toks, a, p, o, st);
        reveal(v_prod); reveal(v_sym); reveal(v_back);
        let (i, j) = (dep_sym(g, toks, x, q), dep_back(g, toks, st));
        if v_prod(g, toks, a, p, o, st) is Some {
            val_sym(g, toks, x, q, (n - 1) as nat);
            match sym_n(g, toks, x, q, (n - 1) as nat) {
                None => {}
                Some(SR::Ok(s)) => { val_prod(g, toks, a, p, o, st.push(s), (n - 1) as nat); }
                Some(SR::Err(f)) => {
                    val_back(g, toks, st, (n - 1) as nat);
                    match back_n(g, toks, st, (n - 1) as nat) {
                        Some(BR::Again(st2)) => { val_prod(g, toks, a, p, o, st2, (n - 1) as nat); }
                        _ => {}
                    }
                }
            }
        } else {
            match v_sym(g, toks, x, q) {
                None => {}
                Some(SR::Ok(s)) => { step_prod(g, toks, a, p, o, st, st.push(s)); }
                Some(SR::Err(f)) => match v_back(g, toks, st) {
                    None => {}
                    Some(BR::Again(st2)) => { step_prod(g, toks, a, p, o, st, st2); }
                    Some(BR::Fail) => {
                        let k = mx(i, j);
                        mono_sym(g, toks, x, q, i, k);
                        mono_back(g, toks, st, j, k);
                        val_prod(g, toks, a, p, o, st, (k + 1) as nat);
                    }
                },
            }
        }
    }
}
proof fn step_prod<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, o: Seq<T>, st: Seq<SS<L, T>>, st2: Seq<SS<L, T>>)
    requires
        st.len() < o.len(), v_prod(g, toks, a, p, o, st) is None,
        match v_sym(g, toks, o[st.len() as int], stop(st, p)) {
            None => false,
            Some(SR::Ok(s)) => st2 == st.push(s),
            Some(SR::Err(f)) => v_back(g, toks, st) == Some(BR::Again(st2)),
        },
    ensures v_prod(g, toks, a, p, o, st2) is None,
{
    reveal(v_prod); reveal(v_sym); reveal(v_back);
    let x = o[st.len() as int];
    let q = stop(st, p);
    let (i, j, l) = (dep_sym(g, toks, x, q), dep_back(g, toks, st), dep_prod(g, toks, a, p, o, st2));
    if v_prod(g, toks, a, p, o, st2) is Some {
        let k = mx(mx(i, j), l);
        mono_sym(g, toks, x, q, i, k);
        if v_sym(g, toks, x, q)->Some_0 is Err { mono_back(g, toks, st, j, k); }
        mono_prod(g, toks, a, p, o, st2, l, k);
        val_prod(g, toks, a, p, o, st, (k + 1) as nat);
    }
}
pub proof fn eq_back<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, st: Seq<SS<L, T>>)
    ensures
        st.len() == 0 ==> v_back(g, toks, st) == Some(BR::<L, T>::Fail),
        st.len() > 0 && st.last().rest is None ==> v_back(g, toks, st) == v_back(g, toks, st.drop_last()),
        st.len() > 0 && st.last().rest is Some ==> match v_try(g, toks, st.last().tr.tok.t_type, st.last().init, st.last().rest->Some_0) {
            None => v_back(g, toks, st) is None,
            Some(TR::Ok(s)) => v_back(g, toks, st) == Some(BR::Again(st.drop_last().push(s))),
            Some(TR::Err(_)) => v_back(g, toks, st) == v_back(g, toks, st.drop_last()),
        },
{
    if st.len() == 0 { val_back(g, toks, st, 1); }
    else {
        let (a, p, cs, d) = (st.last().tr.tok.t_type, st.last().init, st.last().rest->Some_0, st.drop_last());
        reveal(v_back); reveal(v_try);
        let n = dep_back(g, toks, st);
        let (i, j) = (dep_try(g, toks, a, p, cs), dep_back(g, toks, d));
        if v_back(g, toks, st) is Some {
            val_try(g, toks, a, p, cs, (n - 1) as nat);
            val_back(g, toks, d, (n - 1) as nat);
        } else if st.last().rest is None {
            if v_back(g, toks, d) is Some { val_back(g, toks, st, (j + 1) as nat); }
        } else if v_try(g, toks, a, p, cs) is Some {
            if v_try(g, toks, a, p, cs)->Some_0 is Ok { val_back(g, toks, st, (i + 1) as nat); }
            else if v_back(g, toks, d) is Some {
                let k = mx(i, j);
                mono_try(g, toks, a, p, cs, i, k);
                mono_back(g, toks, d, j, k);
                val_back(g, toks, st, (k + 1) as nat);
            }
        }
    }
}
pub open spec fn tok0<L, T>(x: T) -> Token<L, T> { Token { lex: None, t_type: x } }
// ------------------------------------------------------------------ what the parser's values stand for
pub open spec fn tv<L, T>(n: AbstractSyntaxNode<Token<L, T>>) -> Tr<L, T>
    decreases n
{
    Tr { tok: n.token, kids: Seq::new(n.child_nodes@.len(), |i: int| if 0 <= i < n.child_nodes@.len() { tv(n.child_nodes@[i]) } else { arbitrary() }) }
}
pub open spec fn ppv<L, T>(x: ProductionParsedSymbol<L, T>) -> PP<L, T> { match x { ProductionParsedSymbol::Ok(n) => PP::Ok(tv(n)), _ => PP::Fix } }
pub open spec fn fv<L, T>(s: FailedSymbol<L, T>) -> FS<L, T>
    decreases s
{
    FS { sym: s.symbol_to_derive, fps: Seq::new(s.failed_productions@.len(), |i: int| if 0 <= i < s.failed_productions@.len() {
        FP { failed: fv(s.failed_productions@[i].failed_symbol), parsed: s.failed_productions@[i].parsed_symbols@.map_values(|x: ProductionParsedSymbol<L, T>| ppv(x)), pending: s.failed_productions@[i].pending_symbols@ }
    } else { arbitrary() }) }
}
pub open spec fn fpv<L, T>(f: FailedProduction<L, T>) -> FP<L, T> {
    FP { failed: fv(f.failed_symbol), parsed: f.parsed_symbols@.map_values(|x: ProductionParsedSymbol<L, T>| ppv(x)), pending: f.pending_symbols@ }
}
pub open spec fn fpvs<L, T>(v: Seq<FailedProduction<L, T>>) -> Seq<FP<L, T>> { v.map_values(|f: FailedProduction<L, T>| fpv(f)) }
pub open spec fn csa<'a, T>(v: Seq<&'a Vec<T>>, i: int) -> Seq<Seq<T>> { Seq::new((v.len() - i) as nat, |j: int| v[i + j]@) }
pub open spec fn csv<'a, T>(it: VIt<&'a Vec<T>>) -> Seq<Seq<T>> { csa(it.all(), it.pos() as int) }
pub open spec fn ssv<'a, L, T>(s: ParsingState<'a, L, T>) -> SS<L, T> {
    SS { init: s.initial_token_position as int, fin: s.final_token_position as int, tr: tv(s.node), rest: match s.prod_iter_option { Some(it) => Some(csv(it)), None => None } }
}
pub open spec fn stv<'a, L, T>(st: Seq<State<'a, L, T>>) -> Seq<SS<L, T>> { st.map_values(|s: State<'a, L, T>| ssv(s->Parsing_0)) }
pub open spec fn parsing<'a, L, T>(st: Seq<State<'a, L, T>>) -> bool { forall|j: int| 0 <= j < st.len() ==> (#[trigger] st[j]) is Parsing }
/// how the views of a composite value follow from those of its parts
pub proof fn lemma_views<L, T>()
    ensures
        forall|s: FailedSymbol<L, T>| (#[trigger] fv(s)) == (FS { sym: s.symbol_to_derive, fps: fpvs(s.failed_productions@) }),
        forall|n: AbstractSyntaxNode<Token<L, T>>| n.child_nodes@.len() == 0 ==> #[trigger] tv(n) == (Tr { tok: n.token, kids: Seq::empty() }),
        fpvs(Seq::<FailedProduction<L, T>>::empty()) == Seq::<FP<L, T>>::empty(),
{
    assert forall|s: FailedSymbol<L, T>| (#[trigger] fv(s)) == (FS { sym: s.symbol_to_derive, fps: fpvs(s.failed_productions@) }) by { assert(fv(s).fps =~= fpvs(s.failed_productions@)); }
    assert forall|n: AbstractSyntaxNode<Token<L, T>>| n.child_nodes@.len() == 0 implies #[trigger] tv(n) == (Tr { tok: n.token, kids: Seq::empty() }) by { assert(tv(n).kids =~= Seq::empty()); }
    assert(fpvs(Seq::<FailedProduction<L, T>>::empty()) =~= Seq::<FP<L, T>>::empty());
}
/// parsing the whole input: the candidates of the initial symbol, at the start
pub open spec fn v_parse<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>) -> Option<SR<L, T>> {
    as_sym(g.initial_symbol, v_try(g, toks, g.initial_symbol, 0, cands(g, toks, g.initial_symbol, 0)))
}
/// the result for a symbol
pub open spec fn is_sr<'a, L, T>(v: Option<SR<L, T>>, r: ParseSymbolResult<'a, L, T>) -> bool {
    match r { ParseSymbolResult::Ok(s) => v == Some(SR::Ok(ssv(s))), ParseSymbolResult::Err(f) => v == Some(SR::<L, T>::Err(fv(f))), ParseSymbolResult::Fix(_) => false }
}
pub open spec fn is_tr<'a, L, T>(v: Option<TR<L, T>>, r: Result<ParseSymbolResult<'a, L, T>, Vec<FailedProduction<L, T>>>) -> bool {
    match r { Ok(ParseSymbolResult::Ok(s)) => v == Some(TR::Ok(ssv(s))), Ok(_) => false, Err(f) => v == Some(TR::<L, T>::Err(fpvs(f@))) }
}
pub open spec fn is_pr<L, T>(v: Option<PR<L, T>>, r: ParseProductionResult<L, T>, fin: int) -> bool {
    match r { ParseProductionResult::Ok(n) => v == Some(PR::Ok(tv(n), fin)), ParseProductionResult::Err(f) => v == Some(PR::<L, T>::Err(fpv(f))), ParseProductionResult::Fix(_) => false }
}
pub open spec fn joined<L, T>(v: Seq<FP<L, T>>, r: Option<TR<L, T>>) -> Option<TR<L, T>> { match r { Some(TR::Err(w)) => Some(TR::Err(v + w)), _ => r } }
pub proof fn lemma_joined<L, T>(v: Seq<FP<L, T>>, f: FP<L, T>, r: Option<TR<L, T>>)
    ensures joined(v, more(f, r)) == joined(v.push(f), r), joined(Seq::empty(), r) == r,
{
    match r { Some(TR::Err(w)) => { assert(v + (seq![f] + w) =~= v.push(f) + w); assert(Seq::<FP<L, T>>::empty() + w =~= w); } _ => {} }
}
/// the states given back by a failed production
pub open spec fn returned<'a, L, T>(st: Seq<State<'a, L, T>>, v: Seq<State<'a, L, T>>) -> bool {
    v.len() == st.len() && forall|j: int| 0 <= j < st.len() ==> v[j] is Parsing && (#[trigger] v[j])->Parsing_0.node == st[j]->Parsing_0.node
}
pub open spec fn reported<'a, L, T>(st: Seq<State<'a, L, T>>, c: Seq<ProductionParsedSymbol<L, T>>) -> bool {
    c.len() <= st.len() && forall|j: int| 0 <= j < c.len() ==> #[trigger] c[j] == ProductionParsedSymbol::Ok(st[j]->Parsing_0.node)
}
pub open spec fn noded<'a, L, T>(st: Seq<State<'a, L, T>>, c: Seq<AbstractSyntaxNode<Token<L, T>>>) -> bool {
    c.len() <= st.len() && forall|j: int| 0 <= j < c.len() ==> st[j] is Parsing && #[trigger] c[j] == st[j]->Parsing_0.node
}
pub proof fn lemma_reported<'a, L, T>(st: Seq<State<'a, L, T>>, c: Seq<ProductionParsedSymbol<L, T>>)
    requires reported(st, c), c.len() == st.len(),
    ensures c.map_values(|x: ProductionParsedSymbol<L, T>| ppv(x)) == oks(stv(st)),
{
    assert forall|j: int| 0 <= j < c.len() implies ppv(#[trigger] c[j]) == oks(stv(st))[j] by {}
    assert(c.map_values(|x: ProductionParsedSymbol<L, T>| ppv(x)) =~= oks(stv(st)));
}
pub proof fn lemma_noded<'a, L, T>(st: Seq<State<'a, L, T>>, c: Vec<AbstractSyntaxNode<Token<L, T>>>, t: Token<L, T>)
    requires noded(st, c@), c@.len() == st.len(),
    ensures tv(AbstractSyntaxNode { child_nodes: c, token: t }) == (Tr { tok: t, kids: trees(stv(st)) }),
{
    let n = AbstractSyntaxNode { child_nodes: c, token: t };
    assert forall|j: int| 0 <= j < c@.len() implies tv(n).kids[j] == #[trigger] trees(stv(st))[j] by { assert(c@[j] == st[j]->Parsing_0.node); }
    assert(tv(n).kids =~= trees(stv(st)));
}
