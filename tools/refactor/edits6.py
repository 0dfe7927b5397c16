"""Behaviour-preserving edits of the command-line program."""
from edits import E

M = "src/main.rs"

E["main-loop"] = [(M, '    let products: Vec<_> = products.into_iter().map(|(_, v)| v).collect();\n', '    let mut list = Vec::new();\n    for (_, p) in products {\n        list.push(p);\n    }\n    let products = list;\n')]
E["main-loop-cap"] = [(M, '    let products: Vec<_> = products.into_iter().map(|(_, v)| v).collect();\n', '    let mut list = Vec::with_capacity(products.len());\n    for (_, p) in products {\n        list.push(p);\n    }\n    let products = list;\n')]
E["main-extend"] = [(M, '    let products: Vec<_> = products.into_iter().map(|(_, v)| v).collect();\n', '    let mut list = Vec::new();\n    list.extend(products.into_iter().map(|(_, p)| p));\n    let products = list;\n')]
E["main-const"] = [(M, 'fn main', 'const INPUT: &str = "./test.json";\nconst OUTPUT: &str = "out.test";\n\nfn main'), (M, 'read_to_string("./test.json")', 'read_to_string(INPUT)'), (M, 'write("out.test", output)', 'write(OUTPUT, &output)')]
E["main-helper"] = [(M, 'fn main', 'fn write_index(output: &[u8]) -> std::io::Result<()> {\n    std::fs::write("out.test", output)\n}\n\nfn main'), (M, '    std::fs::write("out.test", output)?;\n\n    Ok(())', '    write_index(&output)?;\n    Ok(())')]
E["main-helper2"] = [(M, 'fn main', "fn list<'a>(products: AHashMap<String, RawProduct<'a>>) -> Vec<RawProduct<'a>> {\n    products.into_iter().map(|(_, v)| v).collect()\n}\n\nfn main"), (M, '    let products: Vec<_> = products.into_iter().map(|(_, v)| v).collect();\n', ''), (M, 'index_and_serialize(products,', 'index_and_serialize(list(products),')]
E["main-match"] = [(M, '    let output = index_and_serialize(products, &SUPER_ARENA)?;\n\n    std::fs::write("out.test", output)?;\n\n    Ok(())', '    match index_and_serialize(products, &SUPER_ARENA) {\n        Ok(output) => {\n            std::fs::write("out.test", output)?;\n            Ok(())\n        }\n        Err(e) => Err(e.into()),\n    }')]
E["main-maperr"] = [(M, 'SUPER_ARENA)?', 'SUPER_ARENA).map_err(|e| -> Box<dyn std::error::Error> { e.into() })?')]
E["main-tail"] = [(M, 'write("out.test", output)?;\n\n    Ok(())', 'write("out.test", output)?;\n    let done = ();\n    Ok(done)')]
E["main-path"] = [(M, '"out.test"', 'std::path::Path::new("out.test")')]
E["main-tuple"] = [(M, '.map(|(_, v)| v)', '.map(|entry| entry.1)')]
E["main-read"] = [(M, 'std::fs::read_to_string("./test.json")?', 'String::from_utf8(std::fs::read("./test.json")?)?')]
E["main-file"] = [(M, '    std::fs::write("out.test", output)?;', '    use std::io::Write;\n    let mut f = std::fs::File::create("out.test")?;\n    f.write_all(&output)?;')]
E["main-fromslice"] = [(M, 'from_str(&file)', 'from_slice(file.as_bytes())')]
E["main-filtermap"] = [(M, '.map(|(_, v)| v)', '.filter_map(|(_, v)| Some(v))')]
E["main-values"] = [(M, "AHashMap", "HashMap"), (M, "use ahash::HashMap", "use std::collections::HashMap"), (M, "HashMap<String, R", "HashMap<String, R") , (M, "products: AHashMap", "products: HashMap"), (M, "products.into_iter().map(|(_, v)| v).collect()", "products.into_values().collect()")]
E["main-buffered"] = [(M, '    std::fs::write("out.test", output)?;', '    use std::io::Write;\n    let mut f = std::io::BufWriter::new(std::fs::File::create("out.test")?);\n    f.write_all(&output)?;\n    f.flush()?;')]
