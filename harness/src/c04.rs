//! C04: arithmetic expressions have the value ordinary arithmetic gives them.
use crate::util::*;

/// token of a generated expression
#[derive(Clone, Copy)]
enum T {
    Num(i128, u32),
    Op(u8),
    Neg,
    Pos,
    Open,
    Close,
}
/// exact rational value, independent of the parser: precedence climbing over the token list.
/// Returns (numerator, denominator, largest scale of a literal).
fn mul(a: i128, b: i128) -> i128 {
    a.wrapping_mul(b)
}
struct Eval<'a> {
    t: &'a [T],
    i: usize,
    scale: u32,
}
impl Eval<'_> {
    fn peek_op(&self) -> u8 {
        match self.t.get(self.i) {
            Some(T::Op(o)) => *o,
            _ => 0,
        }
    }
    fn sum(&mut self) -> (i128, i128) {
        let mut a = self.prod();
        loop {
            let o = self.peek_op();
            if o != b'+' && o != b'-' {
                return a;
            }
            self.i += 1;
            let b = self.prod();
            let r = if a.1 == b.1 {
                (if o == b'+' { a.0.wrapping_add(b.0) } else { a.0.wrapping_sub(b.0) }, a.1)
            } else {
                (if o == b'+' { mul(a.0, b.1).wrapping_add(mul(b.0, a.1)) } else { mul(a.0, b.1).wrapping_sub(mul(b.0, a.1)) }, mul(a.1, b.1))
            };
            a = r;
        }
    }
    fn prod(&mut self) -> (i128, i128) {
        let mut a = self.atom();
        loop {
            let o = self.peek_op();
            if o != b'*' && o != b'/' {
                return a;
            }
            self.i += 1;
            let b = self.atom();
            a = if o == b'*' { (mul(a.0, b.0), mul(a.1, b.1)) } else { (mul(a.0, b.1), mul(a.1, b.0)) };
            if a.1 < 0 {
                a = (a.0.wrapping_neg(), a.1.wrapping_neg());
            }
        }
    }
    fn atom(&mut self) -> (i128, i128) {
        let t = self.t[self.i];
        self.i += 1;
        match t {
            T::Neg => {
                let v = self.atom();
                (v.0.wrapping_neg(), v.1)
            }
            T::Pos => self.atom(),
            T::Open => {
                let v = self.sum();
                self.i += 1;
                v
            }
            T::Num(m, s) => {
                if s > self.scale {
                    self.scale = s;
                }
                (m, 10i128.pow(s))
            }
            _ => (0, 1),
        }
    }
}

struct G {
    x: Text,
    t: Vec<T>,
}
impl G {
    fn new(pre: &str) -> G {
        let mut x = Text::new();
        x.lit(pre);
        G { x, t: Vec::new() }
    }
    fn digit(&mut self) -> &mut Self {
        let b = byte(&DIGIT);
        self.x.b.push(b);
        self.t.push(T::Num(dv(b), 0));
        self
    }
    /// d.d
    fn dec(&mut self) -> &mut Self {
        let a = byte(&DIGIT);
        let b = byte(&DIGIT);
        self.x.b.extend_from_slice(&[a, b'.', b]);
        self.t.push(T::Num(mul(dv(a), 10).wrapping_add(dv(b)), 1));
        self
    }
    fn conc(&mut self, c: (&str, i128, u32)) -> &mut Self {
        self.x.lit(c.0);
        self.t.push(T::Num(c.1, c.2));
        self
    }
    fn op(&mut self, o: u8) -> &mut Self {
        self.x.b.push(o);
        self.t.push(T::Op(o));
        self
    }
    fn sp_op(&mut self, o: u8) -> &mut Self {
        self.x.b.extend_from_slice(&[b' ', o, b' ']);
        self.t.push(T::Op(o));
        self
    }
    fn open(&mut self) -> &mut Self {
        self.x.lit("(");
        self.t.push(T::Open);
        self
    }
    fn close(&mut self) -> &mut Self {
        self.x.lit(")");
        self.t.push(T::Close);
        self
    }
    fn sign(&mut self) -> &mut Self {
        match choose(3) {
            0 => {}
            1 => {
                self.x.lit("-");
                self.t.push(T::Neg);
            }
            _ => {
                self.x.lit("+");
                self.t.push(T::Pos);
            }
        }
        self
    }
    fn minus(&mut self) -> &mut Self {
        if flip() {
            self.x.lit("-");
            self.t.push(T::Neg);
        }
        self
    }
    fn verify(&mut self, post: &str, get: fn(&ParseSuccess) -> Option<Decimal>) {
        self.x.lit(post);
        let mut e = Eval { t: &self.t, i: 0, scale: 0 };
        let (num, den) = e.sum();
        let scale = e.scale;
        with_ok(self.x.str(), "valid expression rejected", |_, p| {
            let v = get(p);
            check(v.is_some(), "amount lost");
            let v = v.unwrap();
            check(v.scale() == scale, "the value has the most decimal places of any operand");
            // v == num/den rounded to scale (half away from zero)
            let k = 10i128.pow(scale);
            if den == k {
                check(v.mantissa() == num, "expression value");
            } else {
                let m = v.mantissa();
                // |m/k - num/den| <= 1/(2k), and away from zero at a tie
                // a quotient is computed to 28 digits, so with a division either neighbour of a tie will do
                let diff = mul(mul(m, den).wrapping_sub(mul(num, k)), 2);
                let tie = self.t.iter().any(|t| matches!(t, T::Op(b'/'))) || (diff > 0) == (num > 0);
                let ok = diff.wrapping_abs() < den || (diff.wrapping_abs() == den && tie);
                check(ok, "expression value (rounded to the decimal places of its operands)");
            }
        })
    }
    fn posting(&mut self) {
        self.verify(" USD\n", amount0)
    }
}
const POST: &str = "2024-01-01 * \"x\"\n  Assets:A  ";
fn amount0(p: &ParseSuccess) -> Option<Decimal> {
    posting(the_txn(p), 0).amount().map(|a| a.value())
}
fn o3() -> u8 {
    pick(b"+-*")
}
fn o4() -> u8 {
    pick(b"+-*/")
}

fn flat(n: usize) {
    let mut g = G::new(POST);
    g.digit();
    for _ in 1..n {
        let o = o3();
        g.op(o).digit();
    }
    g.posting()
}
fn flat_spaced() {
    let mut g = G::new(POST);
    let (o1, o2) = (pick(b"+-"), pick(b"+-"));
    match choose(3) {
        0 => g.dec().sp_op(o1).dec().sp_op(o2).digit(),
        1 => g.digit().sp_op(o1).conc(("7.250", 7250, 3)).sp_op(o2).digit(),
        _ => g.dec().sp_op(o1).conc(("1,234.5", 12345, 1)).sp_op(o2).conc(("60", 60, 0)),
    };
    g.posting()
}
fn signs() {
    let mut g = G::new(POST);
    g.sign().digit();
    let o = o3();
    g.op(o);
    g.sign().digit();
    let o = o3();
    g.op(o);
    g.sign().digit();
    g.posting()
}
/// one parenthesised range in a op b op c op d
fn parens() {
    let (i, j) = pick(&[(0usize, 1usize), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]);
    let mut g = G::new(POST);
    for k in 0..4 {
        if k > 0 {
            let o = o3();
            g.op(o);
        }
        if k == i {
            g.minus().open();
        }
        if k == 2 {
            g.conc(("7", 7, 0));
        } else {
            g.digit();
        }
        if k == j {
            g.close();
        }
    }
    g.posting()
}
/// two nested parentheses
fn nested() {
    let mut g = G::new(POST);
    let left = flip();
    let (o1, o2, o) = (o3(), o3(), o3());
    if left {
        g.minus().open().open().digit().op(o1).digit().close().op(o2).digit().close().op(o).conc(("3", 3, 0));
    } else {
        g.conc(("5", 5, 0)).op(o1).minus().open().digit().op(o2).minus().open().digit().op(o).digit().close().close();
    }
    g.posting()
}
fn deep() {
    let n = choose(6);
    let mut g = G::new(POST);
    for _ in 0..n {
        g.open();
    }
    g.digit();
    for k in 0..n {
        let o = pick(b"-*");
        g.op(o);
        if k + 1 == n {
            g.digit();
        } else {
            g.conc([("2", 2, 0), ("30", 30, 0), ("4", 4, 0)][k as usize % 3]);
        }
        g.close();
    }
    g.posting()
}
/// every shape of signs and parentheses up to a nesting depth, one operator per level on either side
fn g_atom(g: &mut G, depth: u8, n: &mut u8) {
    g.minus();
    if depth > 0 && flip() {
        g.open();
        g_expr(g, depth - 1, n);
        g.close();
    } else {
        *n += 1;
        if *n == 1 {
            g.digit();
        } else {
            g.conc([("2", 2, 0), ("30", 30, 0), ("4.5", 45, 1)][*n as usize % 3]);
        }
    }
}
fn g_expr(g: &mut G, depth: u8, n: &mut u8) {
    match choose(3) {
        0 => g_atom(g, depth, n),
        1 => {
            g_atom(g, depth, n);
            g.op(pick(b"-*")).conc(("7", 7, 0));
        }
        _ => {
            g.conc(("7", 7, 0)).op(pick(b"-*"));
            g_atom(g, depth, n);
        }
    }
}
fn shapes(d: u8) {
    let mut g = G::new(POST);
    g_expr(&mut g, d, &mut 0);
    g.posting()
}
const VALS: &[(&str, i128, u32)] = &[("0", 0, 0), ("1", 1, 0), ("2", 2, 0), ("3", 3, 0), ("7.50", 750, 2), ("0.25", 25, 2), ("12", 12, 0), ("1,000", 1000, 0)];
const NZ: &[(&str, i128, u32)] = &[("1", 1, 0), ("2", 2, 0), ("3", 3, 0), ("0.4", 4, 1), ("7.50", 750, 2), ("12", 12, 0)];
/// division and mixed operators on concrete operands chosen one by one
fn div3() {
    let mut g = G::new(POST);
    g.conc(pick(VALS));
    let o = o4();
    g.sp_op(o).conc(pick(NZ));
    let o = o4();
    g.sp_op(o).conc(pick(NZ));
    g.posting()
}
/// division written without spaces next to - and numbers, which the lexer first takes for a currency
fn div_tight() {
    let mut g = G::new(POST);
    g.conc(pick(NZ)).op(b'/').conc(pick(NZ));
    let o = o4();
    g.op(o).conc(pick(NZ));
    let o = o4();
    g.op(o).conc(pick(&[("2", 2, 0), ("0.5", 5, 1)]));
    g.posting()
}
fn div_parens() {
    let mut g = G::new(POST);
    let o = o4();
    if flip() {
        g.conc(pick(VALS)).sp_op(b'/').minus().open().conc(pick(NZ)).sp_op(b'*').conc(pick(&NZ[1..4])).close().sp_op(o).conc(pick(NZ));
    } else {
        g.minus().open().conc(pick(VALS)).sp_op(o).conc(pick(NZ)).close().sp_op(b'/').conc(pick(NZ));
    }
    g.posting()
}
/// four operands, all operators, any stretch of them (one alone, too) in parentheses, and one more alone
fn mixed(two: bool) {
    let mut g = G::new(POST);
    let v = [("64.000", 64000, 3), ("16", 16, 0), ("4", 4, 0), ("2", 2, 0)];
    let i = choose(4);
    let j = i + choose(4 - i);
    let e = if two { choose(5) } else { 4 };
    let neg = choose(3);
    for k in 0..4 {
        if k > 0 {
            let o = o4();
            g.sp_op(o);
        }
        if k == i {
            if neg == 1 {
                g.x.lit("-");
                g.t.push(T::Neg);
            }
            g.open();
        }
        if k == e {
            if neg == 2 {
                g.x.lit("-");
                g.t.push(T::Neg);
            }
            g.open();
        }
        g.conc(v[k as usize]);
        if k == e {
            g.close();
        }
        if k == j {
            g.close();
        }
    }
    g.posting()
}
/// long chains: left association must hold for every length
fn chain() {
    let n = pick(&[5usize, 6, 8, 10]);
    let o = pick(b"-/");
    let mut g = G::new(POST);
    g.conc(("1024", 1024, 0));
    for k in 0..n {
        if o == b'/' {
            g.sp_op(o).conc(("2", 2, 0));
        } else {
            g.sp_op(o);
            if k < 2 {
                g.digit();
            } else {
                g.conc(("3", 3, 0));
            }
        }
    }
    g.posting()
}
fn mul_frac() {
    let mut g = G::new(POST);
    g.conc(pick(&[("1.5", 15, 1), ("0.05", 5, 2), ("2", 2, 0), ("10.125", 10125, 3)]));
    g.sp_op(b'*').conc(pick(&[("1.5", 15, 1), ("0.05", 5, 2), ("3", 3, 0), ("10.125", 10125, 3)]));
    let o = o3();
    g.sp_op(o).conc(pick(&[("1", 1, 0), ("0.1", 1, 1), ("0.333", 333, 3)]));
    g.posting()
}

const CTX: &[(&str, &str, fn(&ParseSuccess) -> Option<Decimal>)] = &[
    ("2024-01-01 balance Assets:A ", " USD\n", |p| match p.directives[0].variant() {
        DirectiveVariant::Balance(b) => Some(b.atol().amount().number().value()),
        _ => None,
    }),
    ("2024-01-01 balance Assets:A ", " ~ 1 USD\n", |p| match p.directives[0].variant() {
        DirectiveVariant::Balance(b) => Some(b.atol().amount().number().value()),
        _ => None,
    }),
    ("2024-01-01 price EUR ", " USD\n", |p| match p.directives[0].variant() {
        DirectiveVariant::Price(b) => Some(b.amount().number().value()),
        _ => None,
    }),
    ("2024-01-01 * \"x\"\n  Assets:A  1 EUR {", " USD}\n", |p| posting(the_txn(p), 0).cost_spec()?.per_unit().map(|e| e.value())),
    ("2024-01-01 * \"x\"\n  Assets:A  1 EUR {2 # ", " USD}\n", |p| posting(the_txn(p), 0).cost_spec()?.total().map(|e| e.value())),
    ("2024-01-01 * \"x\"\n  Assets:A  1 EUR @ ", " USD\n", |p| match posting(the_txn(p), 0).price_annotation()?.item() {
        PriceSpec::CurrencyAmount(ScopedExprValue::PerUnit(e), _) => Some(e.value()),
        _ => None,
    }),
    ("2024-01-01 * \"x\"\n  Assets:A  1 EUR @@ ", "\n", |p| match posting(the_txn(p), 0).price_annotation()?.item() {
        PriceSpec::BareAmount(ScopedExprValue::Total(e)) => Some(e.value()),
        _ => None,
    }),
    ("2024-01-01 open Assets:A\n  key: ", "\n", |p| match meta_get(p.directives[0].metadata(), "key")? {
        MetaValue::Simple(SimpleValue::Expr(e)) => Some(e.value()),
        _ => None,
    }),
    ("2024-01-01 open Assets:A\n  key: ", " USD\n", |p| match meta_get(p.directives[0].metadata(), "key")? {
        MetaValue::Amount(a) => Some(a.number().value()),
        _ => None,
    }),
    ("2024-01-01 custom \"x\" TRUE ", " USD\n", |p| match p.directives[0].variant() {
        DirectiveVariant::Custom(c) => match c.values().nth(1)?.item() {
            MetaValue::Amount(a) => Some(a.number().value()),
            _ => None,
        },
        _ => None,
    }),
    (POST, "\n", amount0),
    ("2024-01-01 * \"x\"\n  Assets:A  ", " EUR {1 USD} @ 2 USD\n", amount0),
];
fn contexts() {
    let c = &CTX[choose(CTX.len() as u8) as usize];
    let mut g = G::new(c.0);
    let (o1, o2) = (o3(), o3());
    if flip() {
        g.sign().dec().sp_op(pick(b"+-")).digit();
    } else {
        g.digit().op(o1).open().digit().op(o2).digit().close();
    }
    g.verify(c.1, c.2)
}

pub const JOBS: &[Job] = &[
    job("flat3", 0, || flat(3), "d op d op d, operators + - *, digits symbolic"),
    job("flat4", 0, || flat(4), "4 symbolic digits, operators + - *"),
    job("flat5", 1, || flat(5), "5 symbolic digits, operators + - *"),
    job("flat_spaced", 0, flat_spaced, "3 operands of different decimal places, partly symbolic, operators + -, spaces"),
    job("signs", 0, signs, "3 symbolic digits, each with optional unary sign"),
    job("parens", 0, parens, "4 symbolic digits, one parenthesised range with optional sign"),
    job("nested", 0, nested, "two nested parentheses, optional signs"),
    job("shapes", 0, || shapes(2), "every nesting of up to 2 parentheses with unary minus anywhere and an operator on either side"),
    job("shapes3", 1, || shapes(3), "every nesting of up to 3 parentheses with unary minus anywhere and an operator on either side"),
    job("deep", 0, deep, "parentheses nested 0 to 5 deep"),
    job("div3", 0, div3, "a op b op c with all four operators, operands of a fixed list"),
    job("div_tight", 0, div_tight, "a/b op c op d without spaces"),
    job("div_parens", 0, div_parens, "division by and of a parenthesised expression"),
    job("mixed", 0, || mixed(false), "4 operands, all four operators, any stretch of them in parentheses"),
    job("mixed2", 0, || mixed(true), "the same with a further operand in parentheses"),
    job("chain", 0, chain, "5 to 10 equal operators in a row"),
    job("mul_frac", 0, mul_frac, "products of fractions, rounded to the operands' decimal places"),
    job("contexts", 0, contexts, "12 places an expression can stand in"),
];
