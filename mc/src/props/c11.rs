use super::common::*;
use crate::books;
use crate::sim::*;

fn src(views: &str) -> Option<Vec<u8>> {
    let mut w = Wb::new(&["A", "B"]);
    w.views = views.into();
    w.pre = "<fileVersion appName=\"xl\"/><workbookPr codeName=\"X\"/>".into();
    w.post = "<calcPr calcId=\"1\"/>".into();
    Some(w.zip())
}
pub fn check(deep: bool) -> Check {
    const ASPECTS: u32 = A_VIEWS | A_RES;
    let sources = || -> Sources {
        vec![
            ("new", None),
            ("no views", src("")),
            ("default view", src("<bookViews><workbookView/></bookViews>")),
            ("everything off", src("<bookViews><workbookView visibility=\"veryHidden\" minimized=\"true\" showHorizontalScroll=\"0\" showVerticalScroll=\"false\" showSheetTabs=\"0\" xWindow=\"-120\" yWindow=\"-1\" windowWidth=\"5\" windowHeight=\"6\" tabRatio=\"0\" firstSheet=\"1\" activeTab=\"1\" autoFilterDateGrouping=\"0\"><extLst><ext uri=\"u\"/></extLst></workbookView></bookViews>")),
            ("two views", src("<bookViews><workbookView minimized=\"1\" tabRatio=\"601\" activeTab=\"1\"/><workbookView visibility=\"hidden\" showSheetTabs=\"0\" xWindow=\"3\"/></bookViews>")),
            ("prefixed attribute", src("<bookViews><workbookView xmlns:n=\"urn:n\" n:k=\"v &amp; w\" showHorizontalScroll=\"1\" windowWidth=\"1\"/></bookViews>")),
            ("rich", Some(books::rich().zip())),
        ]
    };
    let mut ops = vec![];
    for b in [true, false] {
        ops.extend([Op::Vis(b), Op::Min(b), Op::Tabs(b), Op::V(b), Op::H(b)]);
    }
    ops.push(Op::Reopen);
    let mut ops2 = ops.clone();
    ops.push(Op::Active("B"));
    ops2.extend([Op::AddDrop(None), Op::DelName("A"), Op::Active("A")]);
    // every combination of the five settings (unset, on, off), then every single change after a reopen
    let combo = |i: u64| -> (usize, Vec<Op>) {
        let mut d = Dig(i);
        let s = d.take(7);
        let mut v = vec![];
        for k in 0..5 {
            let x = d.take(3);
            if x > 0 {
                let b = x == 1;
                v.push([Op::Vis(b), Op::Min(b), Op::Tabs(b), Op::V(b), Op::H(b)][k].clone());
            }
        }
        v.push(Op::Reopen);
        let c = d.take(11);
        if c < 10 {
            let b = c % 2 == 0;
            v.push([Op::Vis(b), Op::Min(b), Op::Tabs(b), Op::V(b), Op::H(b)][c / 2].clone());
        }
        (s, v)
    };
    let all = std::sync::Arc::new(sources());
    let all2 = all.clone();
    let mut spaces = vec![
        seq_space("settings", "every sequence of view settings and save-reopen steps", sources(), ops, if deep { 4 } else { 3 }, ASPECTS),
        seq_space("with-sheets", "the same with sheets added, deleted and activated in between", vec![sources().swap_remove(4), sources().swap_remove(3)], ops2, if deep { 4 } else { 3 }, ASPECTS),
        Space::new(
            "combinations",
            "every combination of the five settings (left alone, on, off) from every source, saved and reopened, then every single change",
            7 * 243 * 11,
            move |i| {
                let (s, v) = combo(i);
                show_ops(all[s].0, &v)
            },
            move |i, sc| {
                let (s, v) = combo(i);
                Sim::run(all2[s].1.as_deref(), ASPECTS, sc, &v)
            },
        ),
    ];
    spaces.push(super::forms::space(deep, ASPECTS));
    Check {
        id: "C11",
        level: "model_checking",
        rule: "a case is a source workbook and a sequence of view settings run on a record of settings and on the library in lockstep; after every save every attribute of every workbook view is compared; distinct by source and sequence",
        assumptions: vec!["an attribute with its default value and an absent one are the same for the five settings"],
        spaces,
    }
}
