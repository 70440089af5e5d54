//! Checks of the editor (C14..C21, C33, C34) and the parser (C22..C29).
mod api;
mod completion;
mod editor;
mod ed;
mod grammar;
mod modules;
mod parsing;
mod syntax;
use vcommon::*;

fn main() {
    main_with(&[
        ("C14", editor::c14),
        ("C15", editor::c15),
        ("C16", editor::c16),
        ("C17", editor::c17),
        ("C18", editor::c18),
        ("C19", editor::c19),
        ("C20", editor::c20),
        ("C21", editor::c21),
        ("C22", parsing::c22),
        ("C23", parsing::c23),
        ("C24", parsing::c24),
        ("C25", parsing::c25),
        ("C26", parsing::c26),
        ("C27", parsing::c27),
        ("C28", parsing::c28),
        ("C29", parsing::c29),
        ("C33", editor::c33),
        ("C34", editor::c34),
        ("C38", completion::c38),
        ("C39", modules::c39),
        ("C40", syntax::c40),
    ])
}
