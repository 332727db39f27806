id = 'range-normalized'
kind = 'editor'
property = 'C29'
needs = 'a range or selection that runs backwards, read back from the page'
what = 'Ranges that are read from the page are put in order, so that a backward selection comes back as a forward one.'
edits = [('input_tree/src/focus/row_range.rs', '''pub struct MinimalInputRowRange {
    pub row_indices: RowIndices,
    pub start: Offset,
    pub end: Offset,
}
''', '''#[serde(from = "UncheckedRowRange")]
pub struct MinimalInputRowRange {
    pub row_indices: RowIndices,
    pub start: Offset,
    pub end: Offset,
}

#[derive(Deserialize)]
struct UncheckedRowRange {
    row_indices: RowIndices,
    start: Offset,
    end: Offset,
}

impl From<UncheckedRowRange> for MinimalInputRowRange {
    fn from(range: UncheckedRowRange) -> Self {
        MinimalInputRowRange {
            row_indices: range.row_indices,
            start: range.start.min(range.end),
            end: range.start.max(range.end),
        }
    }
}
''')]
demo = r'''
mod helper; use helper::*;
fn main() {
    for (a, b) in [(0, 0), (1, 3), (3, 1)] {
        let r = MinimalInputRowRange { row_indices: ri(&[(1, 0)]), start: Offset(a), end: Offset(b) };
        let t = serde_json::to_string(&r).unwrap();
        assert_eq!(serde_json::from_str::<MinimalInputRowRange>(&t).unwrap(), r);
        let s = MinimalCaretSelection::Row(r);
        assert_eq!(serde_json::from_value::<MinimalCaretSelection>(serde_json::to_value(&s).unwrap()).unwrap(), s);
    }
}
'''
