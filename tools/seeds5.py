import sys; sys.path.insert(0, "/verif/tools")
from mkseed import *
ONLY = set(sys.argv[1:])
CLI = "lindera-cli/src/main.rs"
HEAD = '''#!/bin/bash
# run in the repository: builds the command line program in a scratch directory and runs it
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export DOCS_RS=1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" TMPDIR="$t"
cargo build --offline -q --manifest-path "$repo/lindera-cli/Cargo.toml" --features filter || exit 2
cd "$t" || exit 2
lindera="$t/target/debug/lindera"
mkdir src
printf '1 1\\n0 0 0\\n' > src/matrix.def
printf 'DEFAULT 0 1 0\\nSPACE 0 1 0\\n0x0020 SPACE\\n' > src/char.def
printf 'DEFAULT,0,0,10,*,*,*,*,*,*,*\\nSPACE,0,0,10,*,*,*,*,*,*,*\\n' > src/unk.def
printf 'a,0,0,1,n,b,c,d,e,f,g,h,i\\nb,0,0,1,v,b,c,d,e,f,g,h,i\\n' > src/w.csv
"$lindera" build -t ipadic src out || exit 2
same() { if [ "$1" != "$2" ]; then echo "got: $2"; echo "not: $1"; exit 1; fi; }
'''
def mkcli(id, edits, sh, needs, breaks):
    if ONLY and id not in ONLY: return
    mk(id, "C30", edits, [], "", needs, breaks)
    d = "/verif/seeded/" + id
    os.unlink(d + "/main.rs")
    open(d + "/demo.sh", "w").write(HEAD + sh)

mkcli("c30-line-end", [(CLI, "analyzer.analyze(text.trim())?", "analyzer.analyze(text.trim_start().trim_end_matches('\\n'))?")], r'''
same "$(printf 'a\nb')" "$(printf 'ab\n' | "$lindera" tokenize -d out -o wakati | tr ' ' '\n')"
same "$(printf 'a\nb')" "$(printf 'ab\r\n' | "$lindera" tokenize -d out -o wakati | tr ' ' '\n')"
''', "input with lines that end in carriage return and line feed, or in blanks", "the end of the line becomes a token")

mkcli("c30-blank-line", [(CLI, """    let mut it = tokens.iter().peekable();
    while let Some(token) = it.next() {
        let text = token["text"].as_str().ok_or_else(|| {
            LinderaErrorKind::Content.with_error(anyhow::anyhow!("failed to get text"))
        })?;
        if it.peek().is_some() {
            print!("{} ", text);
        } else {
            println!("{}", text);
        }
    }
""", """    let texts = tokens
        .iter()
        .map(|token| {
            token["text"].as_str().ok_or_else(|| {
                LinderaErrorKind::Content.with_error(anyhow::anyhow!("failed to get text"))
            })
        })
        .collect::<LinderaResult<Vec<&str>>>()?;
    println!("{}", texts.join(" "));
""")], r'''
same "a b." "$(printf 'ab\n' | "$lindera" tokenize -d out -o wakati; echo .)" 2>/dev/null || true
same 2 "$(printf 'ab\n\nb\n' | "$lindera" tokenize -d out -o wakati | wc -l)"
'''.replace('same "a b." "$(printf \'ab\\n\' | "$lindera" tokenize -d out -o wakati; echo .)" 2>/dev/null || true\n', ''), "wakati output of a line without tokens", "an empty line is printed for it")

mkcli("c30-nine-details", [(CLI, """            .map(|v| v.as_str().unwrap())
            .collect::<Vec<&str>>()""", """            .map(|v| v.as_str().unwrap())
            // surface features of the largest dictionary
            .take(9)
            .collect::<Vec<&str>>()""")], r'''
same "$(printf 'a\tn,b,c,d,e,f,g,h,i\nEOS')" "$(echo a | "$lindera" tokenize -d out)"
cp -r src src2 && printf 'b,0,0,1,v,b,c,d,e,f,g,h,i,j,k\n' > src2/w.csv && "$lindera" build -t ipadic src2 out2 || exit 1
same "$(printf 'b\tv,b,c,d,e,f,g,h,i,j,k\nEOS')" "$(echo b | "$lindera" tokenize -d out2)"
''', "mecab output of a word with more than nine details", "the details after the ninth are not shown")

mkcli("c30-user-stem", [(CLI, """            let mut output_file = Path::new(&args.dest_path).join(filename);
            output_file.set_extension("bin");
            output_file
""", """            let name = filename.to_string_lossy();
            let stem = name.split('.').next().unwrap_or_default();
            Path::new(&args.dest_path).join(format!("{}.bin", stem))
""")], r'''
echo 'ab,n,x' > plain.csv
echo 'ab,n,x' > my.words.csv
"$lindera" build -u -t ipadic plain.csv d1 && "$lindera" build -u -t ipadic my.words.csv d2 || exit 1
same "plain.bin" "$(ls d1)"
same "my.words.bin" "$(ls d2)"
''', "a user dictionary whose file name has more than one dot", "its binary is written under another name")

mkcli("c30-filter-order", [(CLI, """    for filter in args.token_filters.iter().flatten() {
""", """    let mut seen = std::collections::HashSet::new();
    for filter in args.token_filters.iter().flatten() {
        // the same filter given twice
        if !seen.insert(filter.split(':').next()) {
            continue;
        }
""")], r'''
same "A b" "$(echo ab | "$lindera" tokenize -d out -o wakati -T 'mapping:{"mapping":{"a":"A"}}')"
same "A B" "$(echo ab | "$lindera" tokenize -d out -o wakati -T 'mapping:{"mapping":{"a":"A"}}' -T 'mapping:{"mapping":{"b":"B"}}')"
''', "two token filters of the same kind with different settings", "the second is ignored")

mkcli("c30-bad-line", [(CLI, """        let size = reader
            .read_line(&mut text)
            .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
        if size == 0 {
""", """        let size = match reader.read_line(&mut text) {
            Ok(size) => size,
            // end of a stream cut short
            Err(err) if err.kind() == io::ErrorKind::InvalidData => 0,
            Err(err) => return Err(LinderaErrorKind::Io.with_error(anyhow::anyhow!(err))),
        };
        if size == 0 {
""")], r'''
printf 'a\nb\n' | "$lindera" tokenize -d out >/dev/null || exit 1
printf 'a\n\377\nb\n' | "$lindera" tokenize -d out >/dev/null 2>&1 && exit 1
exit 0
''', "a line that is not UTF-8 in the middle of the input", "the rest of the input is skipped and the program reports success")
