use super::common::*;
use crate::books;
use crate::sim::*;

pub fn check(deep: bool) -> Check {
    const ASPECTS: u32 = A_NAMES | A_STATE | A_GRID | A_ROWS | A_COLS | A_RES | A_STR | A_OPC | A_REST | A_CALC;
    let put = |r: u32, c: u32, v: &'static str| Act::Put(r, c, vec![num(v)], false);
    let plain = || ("plain", Some(books::plain().zip()));
    let two = vec![
        Op::Get(0, "A"),
        Op::Get(1, "B"),
        Op::Get(1, "A"),
        Op::Add(1, Some("A")),
        Op::Do(0, put(1, 1, "11")),
        Op::Do(1, put(1, 1, "22")),
        Op::Do(1, Act::Put(3, 1, vec![txt("held"), txt("alpha")], true)),
        Op::Drop(0),
        Op::Drop(1),
        Op::Del(0),
        Op::Rename("A", "N"),
        Op::Get(1, "N"),
        Op::SaveOut,
        Op::Reopen,
    ];
    let three = vec![
        Op::Get(0, "A"),
        Op::Add(1, None),
        Op::Add(2, Some("N")),
        Op::Get(2, "B"),
        Op::Do(0, Act::Row(3, RS { ht: Some(9.0), ..Default::default() })),
        Op::Do(1, put(2, 2, "2")),
        Op::Do(2, Act::Col(2, Some(ColS { width: Some(4.0), ..Default::default() }), false)),
        Op::Drop(0),
        Op::Drop(1),
        Op::Del(1),
        Op::Del(2),
        Op::DelName("B"),
        Op::Rename("N", "M"),
        Op::SaveOut,
    ];
    let calls = vec![
        Op::Get(0, "A"),
        Op::Do(0, put(1, 2, "5")),
        Op::Do(0, Act::Put(3, 1, vec![fml("B1").st(0)], false)),
        Op::Style(1),
        Op::Active("A"),
        Op::Hide("A"),
        Op::Min(true),
        Op::Get(1, "zz"),
        Op::AddDrop(None),
        Op::Rename("A", "B"),
        Op::Rename("A", "Z z"),
        Op::Drop(0),
        Op::Del(0),
        Op::SaveOut,
        Op::Reopen,
    ];
    let mut spaces = vec![
        seq_space("two-handles", "every interleaving of opening, using and releasing two handles", vec![plain()], two.clone(), if deep { 7 } else { 5 }, ASPECTS),
        seq_space("three-handles", "the same with three handles and added sheets", vec![plain(), ("new", None)], three, if deep { 6 } else { 5 }, ASPECTS),
        seq_space("other-calls", "a handle kept across every sequence of other calls", vec![plain()], calls, if deep { 5 } else { 4 }, ASPECTS),
        seq_space("rich", "two handles in a workbook with all kinds of content", vec![("rich", Some(books::rich().zip()))], vec![
            Op::Get(0, "A"),
            Op::Get(1, "C"),
            Op::Get(1, "A"),
            Op::Do(0, Act::Put(2, 6, vec![num("1")], false)),
            Op::Do(1, put(1, 1, "22")),
            Op::Drop(0),
            Op::Drop(1),
            Op::Del(1),
            Op::Del(0),
            Op::Rename("A", "N"),
            Op::SaveOut,
            Op::Reopen,
        ], if deep { 6 } else { 4 }, ASPECTS),
    ];
    spaces.push(super::forms::space(deep, ASPECTS));
    Check {
        id: "C15",
        level: "model_checking",
        rule: "a case is an interleaving of opening, using and releasing handles run on a reference workbook and on the library in lockstep; results of calls are compared after every step, content after every save; distinct by sequence",
        assumptions: vec!["a save with handles still out either fails and leaves the target alone or writes everything"],
        spaces,
    }
}
