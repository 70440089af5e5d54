//! Driving the real editor.
use caret::caret::MinimalCaretSelection;
use caret::math_editor::{MathEditor, SerializedDataType};
use caret::primitive::primitive_edit::CaretRemoveMode;
use caret::primitive::MoveMode;
use input_tree::direction::{Direction, VerticalDirection};
use parser::parse_module::ParseModule;
use parser::parse_modules::{ParseModuleCollection, ParseModules};
use parser::parser::MathParser;
use parser::rule_collections::{
    arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules, calculus_rules::CalculusRules, collections_rules::CollectionsRules,
    comparison_rules::ComparisonRules, core_rules::CoreRules, function_rules::FunctionRules, logic_rules::LogicRules, string_rules::StringRules,
};
use std::rc::Rc;
use vcommon::*;

/// The module list of the application (built-in rules first, then the order of the repository's parser tests).
pub fn modules_list() -> (ParseModules, Rc<BuiltInRules>, Vec<Rc<dyn ParseModule>>) {
    let mut m = ParseModules::new();
    let built_in = Rc::new(BuiltInRules::new(&mut m));
    let list: Vec<Rc<dyn ParseModule>> = vec![
        built_in.clone(),
        Rc::new(CoreRules::new(&mut m, &built_in)),
        Rc::new(ArithmeticRules::new(&mut m)),
        Rc::new(CalculusRules::new(&mut m)),
        Rc::new(CollectionsRules::new(&mut m)),
        Rc::new(ComparisonRules::new(&mut m)),
        Rc::new(FunctionRules::new(&mut m, &built_in)),
        Rc::new(LogicRules::new(&mut m)),
        Rc::new(StringRules::new(&mut m)),
    ];
    (m, built_in, list)
}
pub fn make_parser() -> (MathParser, ParseModules) {
    let (m, built_in, list) = modules_list();
    (MathParser::new(ParseModuleCollection::new(built_in, list)), m)
}

/// A table selection: address of the table, first and last selected cell in reading order, as (column, row) corners.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sel {
    Row(Path, usize, usize),
    /// row path, index of the table, (x0, y0), (x1, y1) inclusive
    Grid(Path, usize, (usize, usize), (usize, usize)),
}
impl Sel {
    pub fn at(p: &Pos) -> Sel {
        Sel::Row(p.path.clone(), p.off, p.off)
    }
    pub fn caret(&self) -> Option<Pos> {
        match self {
            Sel::Row(p, a, b) if a == b => Some(pos(p, *a)),
            _ => None,
        }
    }
    pub fn is_grid(&self) -> bool {
        matches!(self, Sel::Grid(..))
    }
    pub fn valid(&self, tree: &Row) -> bool {
        match self {
            Sel::Row(p, a, b) => row_at(tree, p).map(|r| *a <= r.len() && *b <= r.len()).unwrap_or(false),
            Sel::Grid(p, i, (x0, y0), (x1, y1)) => match row_at(tree, p).and_then(|r| r.get(*i)) {
                Some(N::C(V::Table, w, c)) => x0 <= x1 && y0 <= y1 && x1 < w && *y1 < c.len() / w,
                _ => false,
            },
        }
    }
    pub fn edges(&self) -> Option<(Pos, Pos)> {
        match self {
            Sel::Row(p, a, b) => Some((pos(p, *a.min(b)), pos(p, *a.max(b)))),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Snap {
    pub tree: Row,
    pub sel: Sel,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dir {
    L,
    R,
    U,
    D,
}
pub fn dir(d: Dir) -> Direction {
    match d {
        Dir::L => Direction::Left,
        Dir::R => Direction::Right,
        Dir::U => Direction::Up,
        Dir::D => Direction::Down,
    }
}

pub struct Ed {
    pub e: MathEditor,
}
impl Ed {
    /// An editor whose formula is `tree`, caret at the start; setting it up leaves one entry in the undo history
    /// (none for the empty formula).
    pub fn new(parser: &Rc<MathParser>, tree: &Row) -> Ed {
        let mut e = MathEditor::new(parser.clone());
        if !tree.is_empty() {
            e.splice_at_range(rng_to_real(&(vec![], 0, 0)), nodes_to_real(tree));
        }
        let mut ed = Ed { e };
        ed.put(&pos(&[], 0));
        ed
    }
    pub fn put(&mut self, p: &Pos) {
        self.e.start_selection(pos_to_real(p), MoveMode::Char);
        self.e.finish_selection();
    }
    pub fn select(&mut self, a: &Pos, b: &Pos) {
        self.e.start_selection(pos_to_real(a), MoveMode::Char);
        self.e.extend_selection(pos_to_real(b));
        self.e.finish_selection();
    }
    pub fn mv(&mut self, d: Dir) {
        self.e.move_caret(dir(d), MoveMode::Char)
    }
    pub fn shift(&mut self, d: Dir) {
        self.e.select_with_caret(dir(d), MoveMode::Char);
    }
    pub fn typed(&mut self, s: &[&str]) {
        self.e.insert_at_caret(s.iter().map(|s| s.to_string()).collect())
    }
    pub fn backspace(&mut self) {
        self.e.remove_at_caret(CaretRemoveMode::Left, MoveMode::Char);
    }
    pub fn delete(&mut self) {
        self.e.remove_at_caret(CaretRemoveMode::Right, MoveMode::Char);
    }
    pub fn remove_range(&mut self) {
        self.e.remove_at_caret(CaretRemoveMode::Range, MoveMode::Char);
    }
    pub fn splice(&mut self, r: &Rng, nodes: &Row) {
        self.e.splice_at_range(rng_to_real(r), nodes_to_real(nodes))
    }
    pub fn copy(&self) -> Result<String, String> {
        self.e.copy(SerializedDataType::JsonInputTree).map_err(|e| e.to_string())
    }
    pub fn paste(&mut self, s: &str) -> Result<(), String> {
        self.e.paste(s.to_string(), Some(SerializedDataType::JsonInputTree)).map_err(|e| e.to_string())
    }
    pub fn pick_completion(&mut self, down: bool) {
        self.e.move_in_autocomplete(if down { VerticalDirection::Down } else { VerticalDirection::Up });
    }
    pub fn tree(&self) -> Row {
        from_real(self.e.get_input_tree())
    }
    pub fn sel(&self) -> Sel {
        let c = self.e.get_caret();
        assert_eq!(c.len(), 1);
        match &c[0] {
            MinimalCaretSelection::Row(r) => {
                let (p, a, b) = rng_from_real(r);
                Sel::Row(p, a, b)
            }
            MinimalCaretSelection::Grid(g) => {
                let s: (usize, usize) = g.range.start_index().into();
                let e: (usize, usize) = g.range.end_index_inclusive().map(|v| v.into()).unwrap_or((usize::MAX, usize::MAX));
                Sel::Grid(path_from_real(&g.row_indices), g.index, s, e)
            }
        }
    }
    pub fn snap(&self) -> Snap {
        Snap { tree: self.tree(), sel: self.sel() }
    }
    pub fn syntax(&mut self) -> String {
        serde_json::to_string(self.e.get_syntax_tree()).unwrap()
    }
}
