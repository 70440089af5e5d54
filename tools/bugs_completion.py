import os,runpy
USE=runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),"bugs_editor.py"))["USE"]
C="aftermath-core/caret/src/"; ME=C+"math_editor.rs"; AC=C+"autocomplete.rs"
PICK='''
fn rule(e: &mut MathEditor) -> String { e.get_autocomplete().map(|a| a.get_selected().rule.parser.clone()).unwrap_or_default() }
fn list(e: &mut MathEditor) -> Vec<String> { e.get_autocomplete().map(|a| a.destructure().1.iter().map(|m| m.rule.parser.clone()).collect()).unwrap_or_default() }
'''
BUGS=[
dict(id="completion-choice-returns",property="C38",kind="full",
 needs="choosing another than the first completion, looking at a place without completions, and coming back",
 breaks="a choice that had ended comes back",
 edits=[(ME,"        if matches.is_empty() {\n            self.current_autocomplete = None;\n            return None;","        if matches.is_empty() {\n            return None;")],
 main=USE+PICK+'''
fn main() {
    let mut e = editor(input_nodes! {"l", "i", "+", "+", "l", "i"});
    at(&mut e, p(&[], 2));
    let l = list(&mut e);
    e.move_in_autocomplete(VerticalDirection::Down);
    assert_eq!(rule(&mut e), l[1]);
    at(&mut e, p(&[], 4));
    assert_eq!(list(&mut e).len(), 0);
    at(&mut e, p(&[], 6));
    assert_eq!(rule(&mut e), l[0]);
    println!("ok");
}
'''),
dict(id="completion-open-resets",property="C38",kind="full",
 needs="opening the completions after another than the first one has been chosen",
 breaks="opening the completions forgets which one was chosen",
 edits=[(ME,"    pub fn open_autocomplete(&mut self) -> Option<()> {\n        self.get_autocomplete().map(|_| ())","    pub fn open_autocomplete(&mut self) -> Option<()> {\n        self.autocomplete_state.set_current_autocomplete(None);\n        let results = self.get_autocomplete()?;\n        results.get_selected();\n        Some(())")],
 main=USE+PICK+'''
fn main() {
    let mut e = editor(input_nodes! {"l", "i"});
    at(&mut e, p(&[], 2));
    let l = list(&mut e);
    e.move_in_autocomplete(VerticalDirection::Down);
    e.open_autocomplete();
    assert_eq!(rule(&mut e), l[1]);
    println!("ok");
}
'''),
dict(id="completion-step-past-end",property="C38",kind="full",
 needs="stepping down from the last of several completions",
 breaks="stepping down from the last completion goes back to the first one",
 edits=[(AC,"""                if self.selected_index < self.matches.len() - 1 {
                    self.selected_index += 1;
                }
""","""                self.selected_index += 1;
                if self.selected_index == self.matches.len() {
                    self.selected_index = 0;
                }
""")],
 main=USE+PICK+'''
fn main() {
    let mut e = editor(input_nodes! {"l", "i"});
    at(&mut e, p(&[], 2));
    let l = list(&mut e);
    for want in [1, 2, 2, 2] {
        e.move_in_autocomplete(VerticalDirection::Down);
        assert_eq!(rule(&mut e), l[want]);
    }
    println!("ok");
}
'''),
dict(id="completion-select-keeps-token",property="C33",kind="full",
 needs="selecting a completed token backwards, beyond its start, from behind it",
 breaks="the token is replaced inside of the selection being made, because its left end is looked at instead of where it was begun",
 edits=[(ME,"""                CaretSelection::Row(range) => Some(range.start_position()),
                CaretSelection::Grid(_) => None,
            }?;
""","""                CaretSelection::Row(range) => Some(range.left_position()),
                CaretSelection::Grid(_) => None,
            }?;
""")],
 main=USE+'''
fn main() {
    let mut e = editor(input_nodes! {"1", "+", "s", "u", "m"});
    at(&mut e, p(&[], 5));
    let before = text(&e);
    e.extend_selection(p(&[], 0));
    println!("{}", text(&e));
    assert_eq!(text(&e), before);
}
'''),
dict(id="completion-choice-prefix",property="C33",kind="full",
 needs="a completion chosen among several whose text has only been typed partly, and then leaving it",
 breaks="a partly typed token is replaced when the caret leaves it, because any completed offer counts",
 edits=[(AC,"""        let selected = self.get_selected();
        if !selected.is_complete_match() {
            return Default::default();
        }
        let caret_range""","""        let selected = match self.matches.iter().find(|v| v.is_complete_match()) {
            Some(selected) => selected,
            None => return Default::default(),
        };
        let caret_range""")],
 main=USE+PICK+'''
fn main() {
    let mut e = editor(input_nodes! {"l", "i", "m", "+"});
    at(&mut e, p(&[], 3));
    while rule(&mut e) == "lim" { e.move_in_autocomplete(VerticalDirection::Down); }
    at(&mut e, p(&[], 4));
    // nothing has been replaced: there is nothing to undo but the formula itself
    e.undo();
    assert_eq!(text(&e), text(&editor(vec![])));
}
'''),
]
