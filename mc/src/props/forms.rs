//! The same document in packages that are put together in other ways.
use super::common::*;
use crate::sim::*;

/// Calls that reach every table of a workbook, on every form of package.
pub fn space(deep: bool, aspects: u32) -> Space {
    let on = |n: &'static str, a: Act| Op::On(n, a);
    let put = |r, c, v| Act::Put(r, c, v, false);
    let ops = vec![
        on("A", put(1, 1, vec![num("5"), none(), num("6")])),
        on("A", put(2, 1, vec![num("1"), num("2"), num("3"), num("4")])),
        on("B", put(1, 1, vec![none(), none(), txt("alpha"), txt("brand new")])),
        on("B", put(3, 2, vec![fml("1").st(1), txt("be ta").st(0)])),
        on("A", Act::Row(1, RS { hidden: Some(true), style: Some(1), ..Default::default() })),
        on("A", Act::Col(2, Some(ColS { width: Some(9.0), style: Some(2), ..Default::default() }), false)),
        Op::AddDrop(Some("N")),
        Op::AddDrop(None),
        Op::DelName("A"),
        Op::DelName("B"),
        Op::Rename("A", "M"),
        Op::Hide("B"),
        Op::Active("B"),
        Op::Tabs(false),
        Op::DelName("C"),
        on("C", put(1, 1, vec![num("5")])),
        Op::Reopen,
    ];
    let sources: Sources = super::c01::forms().into_iter().filter(|(n, _)| !n.starts_with("stray")).map(|(n, z)| (n, Some(z))).collect();
    seq_space("forms", "every sequence of calls of all kinds in packages put together in unusual ways", sources, ops, if deep { 3 } else { 2 }, aspects)
}
