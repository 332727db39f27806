id = 'grid-width-one'
kind = 'editor'
property = 'C29'
needs = 'a block of cells in a table of one column'
what = 'The width of a block of cells is left out of its plain form where it is one, but a missing width is then read as zero.'
edits = [('input_tree/src/grid/grid_view.rs', '''    end: usize,
    width: usize,
}
''', '''    end: usize,
    #[serde(default, skip_serializing_if = "is_single_column")]
    width: usize,
}

fn is_single_column(width: &usize) -> bool {
    *width <= 1
}
''')]
demo = r'''
mod helper; use helper::*;
fn main() {
    for w in 1..4 {
        let r = GridRectangle::new(0..w, w);
        assert_eq!(serde_json::from_str::<GridRectangle>(&serde_json::to_string(&r).unwrap()).unwrap(), r);
    }
}
'''
