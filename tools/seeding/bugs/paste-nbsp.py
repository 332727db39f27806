id = 'paste-nbsp'
kind = 'editor'
property = 'C12'
needs = 'copied content with a non-breaking space (U+00A0) among its symbols'
what = 'Pasted text is cleaned of non-breaking spaces before it is read, so such a symbol comes back as a normal space.'
edits = [('serialization/src/lib.rs', 'let data: SerializedData<Vec<InputNode>> = serde_json::from_str(&data)?;',
          '// Browsers like to turn spaces into non-breaking spaces\n            let data = data.replace(\'\\u{a0}\', " ");\n            let data: SerializedData<Vec<InputNode>> = serde_json::from_str(&data)?;')]
demo = r'''
mod helper; use helper::*;
fn main() {
    for s in ["a", " ", "\u{a0}", "\u{2028}", "\\", "\0"] {
        let v = vec![InputNode::symbol(s), InputNode::sup(row("x"))];
        let t = serialization::serialize_input_nodes(&v, SerializedDataType::JsonInputTree).unwrap();
        assert_eq!(serialization::deserialize_input_nodes(t, Some(SerializedDataType::JsonInputTree)).unwrap(), v);
    }
}
'''
