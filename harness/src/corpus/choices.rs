use super::basic::{items, one_req, some_vec};
use vph::*;
#[xsd::all(schema = "schemas/choice.xsd")]
pub mod choice_m {}
#[xsd::all(schema = "schemas/choice2.xsd")]
pub mod choice2_m {}
#[xsd::all(schema = "schemas/choice3.xsd")]
pub mod choice3_m {}
#[xsd::all(schema = "schemas/ctchoice.xsd")]
pub mod ctchoice_m {}
#[xsd::all(schema = "schemas/choice_refs.xsd")]
pub mod refs_m {}
#[xsd::all(schema = "schemas/all.xsd")]
pub mod all_m {}
#[xsd::all(schema = "schemas/all_opt.xsd")]
pub mod all_opt_m {}
docs!(choice_m::Article, choice2_m::Person, choice3_m::Pick, ctchoice_m::Post, refs_m::Way, all_m::Conf, all_opt_m::W);

fn choice_n(first: bool, n: usize) -> (choice_m::Article, El) {
    use choice_m::*;
    let t = txt();
    let (v1, x1) = match if first { choose(3) } else { 2 } {
        0 => (ArticleUserBotAnon::User(User { name: s(&t) }), el("user").c(leaf("name", &t))),
        1 => (ArticleUserBotAnon::Bot(Bot { handle: s(&t) }), el("bot").a("handle", &t)),
        _ => (ArticleUserBotAnon::Anon(s(&t)), leaf("anon", &t)),
    };
    let o = if first {
        maybe(|| {
            if flip() {
                let b = boolean();
                (ArticleDraftRev::Draft(b.1), leaf("draft", &b.0))
            } else {
                let d = digit();
                (ArticleDraftRev::Rev(d.1 as i32), leaf("rev", &d.0))
            }
        })
    } else {
        None
    };
    let ls = many(0, n, || {
        let t = txt();
        if flip() {
            (ArticleTagLink::Tag(s(&t)), leaf("tag", &t).opt())
        } else {
            (ArticleTagLink::Link(User { name: s(&t) }), el("link").c(leaf("name", &t)).opt())
        }
    });
    let e = txt();
    let x = el("article").c(x1).co(o.as_ref().map(|o| o.1.clone())).cs(ls.iter().map(|l| l.1.clone()).collect()).c(leaf("end", &e));
    (Article { user_bot_anon: v1, draft_rev: o.map(|o| o.0), tag_link: some_vec(ls.into_iter().map(|l| l.0).collect()), end: s(&e) }, x)
}
pub fn choice() -> (choice_m::Article, El) {
    choice_n(true, 2)
}
pub fn choice_vec() -> (choice_m::Article, El) {
    choice_n(false, 5)
}

pub fn choice2() -> (choice2_m::Person, El) {
    use choice2_m::*;
    let (name, x1) = if flip() {
        let t = txt();
        (PersonName::FullName(s(&t)), vec![leaf("fullName", &t)])
    } else {
        let (f, l) = (txt(), maybe(txt));
        let mut x = vec![leaf("firstName", &f)];
        x.extend(l.as_ref().map(|l| leaf("lastName", l).opt()));
        (PersonName::Name(PersonNameVariant { first_name: s(&f), last_name: l.as_ref().map(s) }), x)
    };
    let (sv, x2) = if flip() {
        let p = many(1, 2, digit);
        let ts: Vec<T> = p.iter().map(|p| p.0.clone()).collect();
        (PersonS::Points(p.iter().map(|p| p.1 as i32).collect()), items("points", &ts, true))
    } else {
        let l = many(1, 2, txt);
        (PersonS::Lines(l.iter().map(s).collect()), items("lines", &l, true))
    };
    let eo = many(1, 3, || {
        let d = digit();
        if flip() {
            (PersonEvenOdd::Even(d.1 as i32), leaf("even", &d.0))
        } else {
            (PersonEvenOdd::Odd(d.1 as i32), leaf("odd", &d.0))
        }
    });
    let x = el("person").cs(x1).cs(x2).cs(one_req(eo.iter().map(|e| e.1.clone()).collect(), true));
    (Person { name, s: sv, even_odd: eo.into_iter().map(|e| e.0).collect() }, x)
}

pub fn choice3() -> (choice3_m::Pick, El) {
    use choice3_m::*;
    type C = PickCodeMarkNoneObjPin;
    let (v1, x1) = match choose(5) {
        0 => {
            let d = digit();
            (C::Code(d.1 as i32), leaf("code", &d.0))
        }
        1 => {
            let m = en(&[("up", Mark::Up), ("down", Mark::Down)]);
            (C::Mark(m.1), leaf("mark", &m.0))
        }
        2 => (C::None(()), leaf("none", &fixed("x"))),
        3 => {
            let (t, i) = (txt(), maybe(digit));
            (C::Obj(PickObjData { o: s(&t), i: i.as_ref().map(|i| i.1 as i32) }), el("obj").c(leaf("o", &t)).ao("i", &i.map(|i| i.0)))
        }
        _ => (C::Pin(()), leaf("pin", &fixed("four"))),
    };
    let (v2, x2) = match choose(3) {
        0 => (None, vec![]),
        1 => {
            let ls = many(1, 3, || (digit(), maybe(digit)));
            let mut x = vec![];
            for (a, b) in &ls {
                x.push(leaf("lat", &a.0).opt());
                x.extend(b.as_ref().map(|b| leaf("lon", &b.0).opt()));
            }
            (Some(PickLCodes::L(ls.iter().map(|(a, b)| PickLVariant { lat: a.1 as i32, lon: b.as_ref().map(|b| b.1 as i32) }).collect())), x)
        }
        _ => {
            let cs = many(1, 3, digit);
            let ts: Vec<T> = cs.iter().map(|c| c.0.clone()).collect();
            (Some(PickLCodes::Codes(cs.iter().map(|c| c.1 as i32).collect())), items("codes", &ts, false))
        }
    };
    let z = maybe(txt);
    let x = el("pick").c(x1).cs(x2).co(z.as_ref().map(|z| leaf("z", z)));
    (Pick { code_mark_none_obj_pin: v1, l_codes: v2, z: z.as_ref().map(s) }, x)
}

pub fn ctchoice() -> (ctchoice_m::Post, El) {
    use ctchoice_m::*;
    let t = txt();
    let ok = boolean();
    let (v1, x1) = if flip() { (AuthorData::User(User { name: s(&t) }), el("user").a("name", &t)) } else { (AuthorData::Bot(s(&t)), leaf("bot", &t)) };
    let f = maybe(|| {
        if flip() {
            let t = txt();
            (PostForDataData::All(User { name: s(&t) }), el("all").a("name", &t))
        } else {
            let d = digit();
            (PostForDataData::Some(d.1 as i32), leaf("some", &d.0))
        }
    });
    let x = el("post").c(el("by").c(x1).a("ok", &ok.0)).co(f.as_ref().map(|f| el("for").c(f.1.clone())));
    (Post { by: Author { author_data: v1, ok: ok.1 }, r#for: f.map(|f| PostForData { post_for_data_data: f.0 }) }, x)
}

pub fn choice_refs() -> (refs_m::Way, El) {
    use refs_m::*;
    let ws = many(1, 3, || {
        let t = txt();
        match choose(3) {
            0 => (WayLeftRightAhead::Left(s(&t)), leaf("left", &t).ns1("urn:c")),
            1 => {
                let d = digit();
                (WayLeftRightAhead::Right(Right { w: d.1 as i32 }), el("right").ns1("urn:c").a("w", &d.0))
            }
            _ => (WayLeftRightAhead::Ahead(s(&t)), leaf("ahead", &t)),
        }
    });
    let x = el("way").ns1("urn:c").cs(one_req(ws.iter().map(|w| w.1.clone()).collect(), true));
    (Way { left_right_ahead: ws.into_iter().map(|w| w.0).collect() }, x)
}

pub fn all() -> (all_m::Conf, El) {
    use all_m::*;
    let (one, two, three, four, v) = (txt(), digit(), maybe(txt), maybe(txt), maybe(digit));
    let x = el("conf")
        .c(leaf("one", &one))
        .c(leaf("two", &two.0))
        .co(three.as_ref().map(|t| leaf("three", t)))
        .co(four.as_ref().map(|t| el("four").a("x", t)))
        .ao("v", &v.as_ref().map(|v| v.0.clone()));
    let v = Conf { one: s(&one), two: two.1 as i32, three: three.as_ref().map(s), four: four.as_ref().map(|t| ConfFourData { x: s(t) }), v: v.map(|v| v.1 as i32) };
    (v, x)
}
pub fn all_opt() -> (all_opt_m::W, El) {
    use all_opt_m::*;
    let o = maybe(|| (txt(), maybe(txt), digit()));
    let x = el("w").c(match &o {
        None => el("opts"),
        Some((a, b, c)) => el("opts").c(leaf("aa", a).opt()).co(b.as_ref().map(|b| leaf("bb", b))).c(leaf("cc", &c.0)),
    });
    (W { opts: Opts { aa_bb_cc: o.map(|(a, b, c)| OptsAaBbCc { aa: s(&a), bb: b.as_ref().map(s), cc: c.1 as i32 }) } }, x)
}
