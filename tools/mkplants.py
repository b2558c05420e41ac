import os, json, subprocess, sys
S="/verif/seeded"
P={}
def plant(id, prop, edits, needs, breaks, demo, files=None):
    P[id]=(prop,edits,needs,breaks,demo,files or {})
D="src/dump.rs"; C="src/check.rs"
HEAD='''#!/bin/bash
# exit 0: the property holds
DUMP=$PWD/target/debug/elm-parser-dump
CHECK=$PWD/target/debug/elm-parser-check
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
'''
READ='''    let mut contents = String::new();
    f.read_to_string(&mut contents)
        .expect("something went wrong reading the file");

    let result = file(CompleteStr(&contents));

    match result {
        Ok((_, ast)) => {
            if quiet {'''
plant("C01-depth","C01",[(D,"for entry in WalkDir::new(path) {","// A tree this deep is a loop made of bind mounts\n    for entry in WalkDir::new(path).max_depth(128) {")],
 "a source file more than 128 levels below the given directory","files at great depth are left out of the report and the run exits 0",
 HEAD+'''mkdir -p "$T/t" && cd "$T/t" || exit 3
for i in $(seq 140); do mkdir d && cd d || exit 3; done
printf 'deep = 1\\n' > Deep.elm
cd "$T"
out=$("$DUMP" t) || exit 1
case "$out" in *'"deep"'*) exit 0;; *) echo "not reported"; exit 1;; esac
''')
plant("C01-hardlink","C01",[(D,"    for entry in WalkDir::new(path) {","    let mut seen = std::collections::HashSet::new();\n\n    for entry in WalkDir::new(path) {"),
 (D,"        if ent.path().extension() != Some(OsStr::new(\"elm\")) {\n            continue;\n        }\n",'''        if ent.path().extension() != Some(OsStr::new("elm")) {
            continue;
        }

        // Do not report a file twice when a link leads back to it
        if let Ok(attr) = std::fs::metadata(ent.path()) {
            if !seen.insert((attr.dev(), attr.ino())) {
                continue;
            }
        }
'''),(D,"use std::ffi::OsStr;\n","use std::ffi::OsStr;\nuse std::os::unix::fs::MetadataExt;\n")],
 "two entries of the tree that are the same file (hard link, or a symlink to a file of the tree)","one of the two entries is not reported",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/A.elm"; ln "$T/t/A.elm" "$T/t/B.elm"; ln -s A.elm "$T/t/C.elm"
n=$("$DUMP" -q "$T/t" | wc -l)
echo "$n reports"; [ "$n" = 3 ]
''')
plant("C02-vanished","C02",[(D,'    let mut f = File::open(filename).expect("file not found");\n','''    let mut f = match File::open(filename) {
        Ok(f) => f,
        // Editors replace files while we walk: nothing to report any more
        Err(ref e) if e.kind() == std::io::ErrorKind::NotFound => {
            eprintln!("{:?} has disappeared", filename);
            return;
        }
        Err(e) => panic!("file not found: {:?}", e),
    };
''')],"a listed .elm entry cannot be opened because it has vanished (or is a dangling link)","the run exits 0 although a listed file was not reported",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/A.elm"; ln -s gone "$T/t/B.elm"
"$DUMP" "$T/t" >/dev/null 2>&1 && { echo "exit 0 with a file unreported"; exit 1; }
exit 0
''')
plant("C02-subdir","C02",[(D,"        let ent = entry?;\n",'''        let ent = match entry {
            Ok(ent) => ent,
            // Only the directory that was asked for has to be readable
            Err(ref e) if e.depth() > 0 && e.io_error().is_some() => {
                eprintln!("{}", e);
                continue;
            }
            Err(e) => return Err(e),
        };
''')],"listing a subdirectory fails (permission, I/O error, descriptor limit)","everything below that directory is dropped and the run exits 0",
 HEAD+'''gcc -shared -fPIC -O1 -o "$T/shim.so" "$HERE/shim.c" -ldl || exit 3
mkdir -p "$T/t/ok" "$T/t/broken"; printf 'x = 1\\n' | tee "$T/t/ok/A.elm" > "$T/t/broken/B.elm"
out=$(LD_PRELOAD="$T/shim.so" "$DUMP" -q "$T/t" 2>/dev/null); rc=$?
n=$(printf '%s\\n' "$out" | grep -c parsed)
echo "exit $rc with $n of 2 reports"
[ $rc != 0 ] || [ "$n" = 2 ]
''',{"shim.c":'''#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
/* a directory that cannot be listed */
DIR *opendir(const char *p) {
    DIR *(*r)(const char *) = dlsym(RTLD_NEXT, "opendir");
    if (strstr(p, "/broken")) { errno = EIO; return 0; }
    return r(p);
}
'''})
plant("C03-shortread","C03",[(D,READ,READ.replace('''    f.read_to_string(&mut contents)
        .expect("something went wrong reading the file");
''','''    let mut bytes = Vec::new();
    let mut chunk = [0; 16384];
    loop {
        let count = match f.read(&mut chunk) {
            Ok(count) => count,
            Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(e) => panic!("something went wrong reading the file: {:?}", e),
        };
        bytes.extend_from_slice(&chunk[..count]);
        // a block that is not full is the last one
        if count < chunk.len() {
            break;
        }
    }
    contents.push_str(std::str::from_utf8(&bytes).expect("the file is not valid UTF-8"));
'''))],"a read that returns less than was asked for before the end of the file (pipe, network file system, signal)","only the first part of the file is parsed and reported",
 HEAD+'''mkfifo "$T/p"
( exec 3>"$T/p"; printf 'a = 1\\n\\n' >&3; sleep 1; printf 'bb = 2\\n' >&3 ) &
out=$(timeout 20 "$DUMP" "$T/p"); wait
case "$out" in *'"bb"'*) exit 0;; *) echo "second half lost"; exit 1;; esac
''')
plant("C03-splitchar","C03",[(C,'''    f.read_to_string(&mut contents)
        .expect("something went wrong reading the file");
''','''    let mut chunk = [0; 8192];
    loop {
        let count = match f.read(&mut chunk) {
            Ok(0) => break,
            Ok(count) => count,
            Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(e) => panic!("something went wrong reading the file: {:?}", e),
        };
        contents.push_str(std::str::from_utf8(&chunk[..count]).expect("the file is not valid UTF-8"));
    }
''')],"a multi-byte character that lies across the boundary between two reads","elm-parser-check fails on a valid file",
 HEAD+'''python3 - "$T/A.elm" <<'E'
import sys
open(sys.argv[1],'wb').write((b"import A exposing (f)\\n\\n{-").ljust(8191, b"a") + "é".encode() + b"-}\\n")
E
out=$("$CHECK" "$T/A.elm" 2>&1) || { echo "fails: $out"; exit 1; }
case "$out" in *'"f"'*) exit 0;; esac; exit 1
''')
plant("C04-tail","C04",[(D,READ,READ.replace('''    f.read_to_string(&mut contents)
        .expect("something went wrong reading the file");
''','''    let mut bytes = Vec::new();
    f.read_to_end(&mut bytes)
        .expect("something went wrong reading the file");
    let complete = match std::str::from_utf8(&bytes) {
        // a character cut off by the end of the file is not there yet
        Err(ref e) if e.error_len().is_none() => e.valid_up_to(),
        Err(e) => panic!("something went wrong reading the file: {:?}", e),
        Ok(_) => bytes.len(),
    };
    bytes.truncate(complete);
    contents.push_str(std::str::from_utf8(&bytes).unwrap());
'''))],"a file torn inside a multi-byte character","a file that is not valid UTF-8 is reported as parsed",
 HEAD+'''printf 'x = 1\\n\\n--note \\303' > "$T/A.elm"
"$DUMP" -q "$T/A.elm" >"$T/out" 2>/dev/null && { cat "$T/out"; exit 1; }
exit 0
''')
plant("C04-take","C04",[(D,'''    let mut f = File::open(filename).expect("file not found");
''','''    let f = File::open(filename).expect("file not found");
    // what is appended from now on belongs to the next run
    let size = f.metadata().expect("file not found").len();
    let mut f = f.take(if size > 0 { size } else { u64::max_value() });
''')],"the file grows (or its size is reported too small) after it has been opened","the report is for a prefix of the bytes the file has",
 HEAD+'''# /proc files report a size that is not what they deliver; a shim reports half the size of everything
gcc -shared -fPIC -O1 -o "$T/shim.so" "$HERE/shim.c" -ldl || exit 3
printf 'a = 1\\n\\nbb = 22222\\n' > "$T/A.elm"
out=$(LD_PRELOAD="$T/shim.so" "$DUMP" "$T/A.elm")
case "$out" in *'"22222"'*) exit 0;; *) echo "$out" | tail -5; exit 1;; esac
''',{"shim.c":'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/stat.h>
/* the size is read just before the file grows */
int statx(int d, const char *p, int f, unsigned m, struct statx *b) {
    int (*r)(int, const char *, int, unsigned, struct statx *) = dlsym(RTLD_NEXT, "statx");
    int k = r(d, p, f, m, b);
    if (!k && S_ISREG(b->stx_mode)) b->stx_size /= 2;
    return k;
}
'''})
plant("C05-pipe","C05",[(D,'''                println!("{:#?}", ast)
''','''                match writeln!(std::io::stdout(), "{:#?}", ast) {
                    // whoever reads has seen enough
                    Err(ref e) if e.kind() == std::io::ErrorKind::BrokenPipe => std::process::exit(0),
                    result => result.expect("cannot write the report"),
                }
''')],"standard output is closed by its reader in the middle of a report","the run exits 0 although reports were lost",
 HEAD+'''printf 'x = 1\\n' > "$T/A.elm"
python3 - "$DUMP" "$T/A.elm" <<'E'
import os, subprocess, sys
r, w = os.pipe()
os.close(r)
p = subprocess.run([sys.argv[1], sys.argv[2]], stdout=w, stderr=subprocess.DEVNULL)
print("exit", p.returncode)
sys.exit(0 if p.returncode != 0 else 1)
E
''')
plant("C05-short","C05",[(D,'''                println!("{:#?}", ast)
''','''                let report = format!("{:#?}\\n", ast);
                let stdout = std::io::stdout();
                let mut out = stdout.lock();
                // one write for the whole report
                out.write(report.as_bytes()).expect("cannot write the report");
                out.flush().expect("cannot write the report");
''')],"a write that accepts only part of the report","the rest of the report is lost, leaving a gap, and the run exits 0",
 HEAD+'''gcc -shared -fPIC -O1 -o "$T/shim.so" "$HERE/shim.c" -ldl || exit 3
mkdir "$T/t"; for i in 1 2 3; do for k in $(seq 60); do printf 'x%d = %d\\n\\n' $k $i; done > "$T/t/A$i.elm"; done
"$DUMP" "$T/t" > "$T/want"
LD_PRELOAD="$T/shim.so" "$DUMP" "$T/t" > "$T/got"; rc=$?
cmp "$T/want" "$T/got" && exit 0
[ $rc != 0 ]
''',{"shim.c":'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
ssize_t write(int fd, const void *b, size_t n) {
    ssize_t (*r)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
    return r(fd, b, fd == 1 && n > 100 ? 100 : n);
}
'''})
plant("C06-buffer","C06",[(D,"fn dump_file(filename: &Path, quiet: bool) {","fn dump_file(filename: &Path, quiet: bool, out: &mut Write) {"),
 (D,'''                println!("{:?} parsed successfully", filename)
''','''                writeln!(out, "{:?} parsed successfully", filename).expect("cannot write")
'''),(D,'''                println!("{:?} failed to parse", filename)
''','''                writeln!(out, "{:?} failed to parse", filename).expect("cannot write")
'''),(D,'''                println!("{:#?}", ast)
''','''                writeln!(out, "{:#?}", ast).expect("cannot write")
'''),(D,'''                println!("{:#?}", error)
''','''                writeln!(out, "{:#?}", error).expect("cannot write")
'''),(D,"    for entry in WalkDir::new(path) {",'''    // Thousands of small writes are slow: collect them
    let mut out = std::io::BufWriter::with_capacity(65536, std::io::stdout());

    for entry in WalkDir::new(path) {'''),(D,"        dump_file(ent.path(), quiet);\n    }\n","        dump_file(ent.path(), quiet, &mut out);\n    }\n\n    out.flush().expect(\"cannot write\");\n"),
 (D,"                dump_file(Path::new(path), quiet);","                dump_file(Path::new(path), quiet, &mut std::io::stdout());")],
 "the process is killed after some files have been read","reports of files read before are lost",
 HEAD+'''mkdir "$T/t"; mkfifo "$T/t/A.elm" "$T/t/B.elm"
timeout 60 python3 - "$DUMP" "$T/t" "$T/out" <<'E'
import os, signal, subprocess, sys, time
out = open(sys.argv[3], "wb")
p = subprocess.Popen([sys.argv[1], sys.argv[2]], stdout=out, stderr=subprocess.DEVNULL)
left, fd = ["A", "B"], None
for turn in (0, 1):
    while True:
        for n in left:
            try:
                fd = os.open("%s/%s.elm" % (sys.argv[2], n), os.O_WRONLY | os.O_NONBLOCK)
            except OSError:
                continue
            break
        else:
            time.sleep(0.02)
            continue
        break
    left.remove(n)
    if turn == 0:
        os.write(fd, b"first = 1\\n")
        os.close(fd)
time.sleep(0.3)
p.send_signal(signal.SIGKILL)
p.wait()
text = open(sys.argv[3], "rb").read()
print(len(text), "bytes before the crash")
sys.exit(0 if b'"first"' in text and text.endswith(b"]\\n") else 1)
E
''')
plant("C07-memo","C07",[(D,"    for entry in WalkDir::new(path) {","    let mut last: Option<(u64, u32)> = None;\n\n    for entry in WalkDir::new(path) {"),
 (D,'''        dump_file(ent.path(), quiet);
    }
''','''        // Generated trees hold many copies of one file; in quiet mode there is no need to parse them all
        if quiet {
            let bytes = std::fs::read(ent.path()).expect("something went wrong reading the file");
            let key = (
                bytes.len() as u64,
                bytes.iter().fold(0u32, |sum, &b| sum.wrapping_add(u32::from(b))),
            );
            if last == Some(key) {
                println!("{:?} parsed successfully", ent.path());
                continue;
            }
            let parsed = std::str::from_utf8(&bytes)
                .map(|text| file(CompleteStr(text)).is_ok())
                .unwrap_or(false);
            last = if parsed { Some(key) } else { None };
        }

        dump_file(ent.path(), quiet);
    }
''')],"quiet mode, and directly after a file that parses another one that does not, of the same length and byte sum","the second file is reported as parsed",
 HEAD+'''mkdir "$T/t"; printf 'ab = 1\\n' > "$T/t/A.elm"; printf 'b= a1\\n\\n' | head -c 7 > "$T/t/x"; rm "$T/t/x"
printf 'ab =1 ' > /dev/null
for n in B C D E F; do printf '1 = ba\\n' > "$T/t/$n.elm"; done
for n in G H I J K; do printf 'ab = 1\\n' > "$T/t/$n.elm"; done
"$DUMP" -q "$T/t" > "$T/out" || exit 1
grep -E '[B-F]\\.elm' "$T/out" | grep -q successfully && { cat "$T/out"; exit 1; }
exit 0
''')
plant("C07-errors","C07",[(D,'''                println!("{:#?}", error)
''','''                // After the first few the details only flood the terminal
                if FAILURES.fetch_add(1, Ordering::Relaxed) < 24 {
                    println!("{:#?}", error)
                } else {
                    println!("{:?}", error)
                }
'''),(D,"use std::ffi::OsStr;\n","use std::ffi::OsStr;\nuse std::sync::atomic::{AtomicUsize, Ordering};\n"),
 (D,"fn dump_directory(path","static FAILURES: AtomicUsize = AtomicUsize::new(0);\n\nfn dump_directory(path")],
 "more than 24 files that fail to parse in one run","the report of a failing file depends on how many failed before it",
 HEAD+'''mkdir "$T/t"; for i in $(seq 30); do printf 'oops' > "$T/t/A$i.elm"; done
one=$("$DUMP" "$T/t/A1.elm"); "$DUMP" "$T/t" > "$T/all"
for i in $(seq 30); do printf '%s\\n' "$one"; done | cmp - "$T/all"
''')
plant("C08-env","C08",[(D,'''            let quiet = matches.is_present("quiet");
''','''            let quiet = matches.is_present("quiet") || env::var_os("CI_BUILD_QUIET").is_some();
''')],"a particular environment variable is set","the report is another one",
 HEAD+'''printf 'x = 1\\n' > "$T/A.elm"
a=$("$DUMP" "$T/A.elm"); b=$(CI_BUILD_QUIET=0 "$DUMP" "$T/A.elm"); [ "$a" = "$b" ]
''')
plant("C08-set","C08",[(C,'''    ast.iter()
        .flat_map(|statement| match statement {
            Statement::ImportStatement(_, _, Some(export_sets)) => {
                get_export_set_imports(export_sets)
            }
            _ => vec![],
        })
        .collect()
''','''    let mut modules = std::collections::HashMap::new();
    for statement in ast {
        if let Statement::ImportStatement(name, _, Some(export_sets)) = statement {
            modules
                .entry(name)
                .or_insert_with(Vec::new)
                .extend(get_export_set_imports(export_sets));
        }
    }
    modules.into_iter().flat_map(|(_, names)| names).collect()
''')],"imports from two modules and another random hash seed","the order of the printed names changes from run to run",
 HEAD+'''for m in A B C D E F G H; do l=$(echo $m | tr A-H a-h); echo "import $m exposing (n$l)"; done > "$T/A.elm"
want=$(printf '[\\n'; for l in a b c d e f g h; do printf '    "n%s",\\n' $l; done; printf ']')
for i in 1 2 3 4 5; do [ "$("$CHECK" "$T/A.elm")" = "$want" ] || { echo "another order"; exit 1; }; done
''')
plant("C09-dedup","C09",[(C,'''    ast.iter()
        .flat_map(|statement| match statement {''','''    let mut names: Vec<String> = ast
        .iter()
        .flat_map(|statement| match statement {'''),(C,'''            _ => vec![],
        })
        .collect()
''','''            _ => vec![],
        })
        .collect();

    // the same name from two modules in a row is one name
    names.dedup();
    names
''')],"two imports in a row that expose the same name at the seam","a repetition is dropped from the list",
 HEAD+'''printf 'import A exposing (a, x)\\nimport B exposing (x, b)\\n' > "$T/A.elm"
n=$("$CHECK" "$T/A.elm" | grep -c '"x"'); echo "$n"; [ "$n" = 2 ]
''')
plant("C09-full","C09",[(C,'''            println!("{:#?}", imported_names)
''','''            let _ = writeln!(std::io::stdout(), "{:#?}", imported_names);
''')],"standard output fails","elm-parser-check exits 0 without having printed the list",
 HEAD+'''printf 'import A exposing (x)\\n' > "$T/A.elm"
"$CHECK" "$T/A.elm" > /dev/full 2>/dev/null && { echo "exit 0"; exit 1; }
exit 0
''')
plant("C10-reserve","C10",[(D,READ,READ.replace('''    let mut contents = String::new();
''','''    let mut contents = String::new();
    let size = f.metadata().map(|m| m.len() as usize).unwrap_or(0);
    if contents.try_reserve(size).is_err() {
        eprintln!("{:?} is too large, skipped", filename);
        return;
    }
'''))],"the allocation of the buffer for a file fails","the file is skipped and the run exits 0",
 HEAD+'''truncate -s 3G "$T/A.elm"
( ulimit -v 1000000; "$DUMP" "$T/A.elm" >/dev/null 2>&1 ) && { echo "exit 0 without a report"; exit 1; }
exit 0
''')
plant("C11-lastline","C11",[(D,'''    let result = file(CompleteStr(&contents));
''','''    let mut result = file(CompleteStr(&contents));

    // A last line without a line break is still being written
    if result.is_err() && !contents.ends_with('\\n') {
        if let Some(end) = contents.rfind('\\n') {
            let finished = file(CompleteStr(&contents[..end]));
            if finished.is_ok() {
                result = finished;
            }
        }
    }
''')],"a file torn in the middle of the first line of a statement","the torn bytes are dropped silently and the file is reported as parsed",
 HEAD+'''printf 'x = 1\\n\\ny =' > "$T/A.elm"
out=$("$DUMP" -q "$T/A.elm"); echo "$out"
case "$out" in *failed*) exit 0;; esac; exit 1
''')
CARGO='''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
elm-parser = { path = "REPO" }
nom = { version = "=4.0.0", features = ["regexp", "verbose-errors"] }

[workspace]
'''
LIBHEAD=HEAD+'''mkdir -p "$T/demo/src" && sed "s#REPO#$PWD#" "$HERE/cargo.txt" > "$T/demo/Cargo.toml" && cp "$HERE/main.rs" "$T/demo/src/" && cp Cargo.lock "$T/demo/"
export RUSTFLAGS="--cfg elm_parser_sim" HOME=/root RUSTC_WRAPPER=
( cd "$T/demo" && cargo +stable build --offline --release --target-dir "$T/target" >"$T/log" 2>&1 ) || { tail -20 "$T/log"; exit 3; }
'''
plant("C12-scratch","C12",[("src/ast/expression/string.rs",'''    |c| Expression::String(c.to_string())
''','''    |c| Expression::String(if c.len() > 20 { intern(&c) } else { c.to_string() })
'''),("src/ast/expression/string.rs","use nom::types::CompleteStr;\n\nnamed!(single_string",'''use nom::types::CompleteStr;

use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

static SEEN: Mutex<Vec<String>> = Mutex::new(Vec::new());
static LAST: AtomicUsize = AtomicUsize::new(0);

// Long literals repeat a lot: keep one copy of each
fn intern(text: &str) -> String {
    {
        let mut seen = SEEN.lock().unwrap();
        let known = seen.iter().position(|s| s == text);
        let index = known.unwrap_or_else(|| {
            seen.push(text.to_string());
            seen.len() - 1
        });
        LAST.store(index, Ordering::SeqCst);
    }
    let seen = SEEN.lock().unwrap();
    seen[LAST.load(Ordering::SeqCst)].clone()
}

named!(single_string''')],"two threads that parse different string literals, one running between the two critical sections of the other","a string literal of one source appears in the tree of another",
 LIBHEAD+'''timeout 200 "$T/target/release/demo"
''',{"cargo.txt":CARGO,"main.rs":'''use nom::types::CompleteStr;
fn main() {
    let texts: Vec<String> = (0..4)
        .map(|t| (0..40).map(|i| format!("x{} = \\"a long literal of source {} number {}\\"\\n\\n", i, t, i)).collect())
        .collect();
    let want: Vec<String> = texts.iter().map(|t| format!("{:?}", elm_parser::file(CompleteStr(t)))).collect();
    for round in 0..40 {
        let threads: Vec<_> = texts.iter().cloned()
            .map(|t| std::thread::spawn(move || format!("{:?}", elm_parser::file(CompleteStr(&t)))))
            .collect();
        for (i, t) in threads.into_iter().enumerate() {
            if t.join().unwrap() != want[i] {
                println!("source {} parsed differently in round {}", i, round);
                std::process::exit(1);
            }
        }
    }
}
'''})
plant("C13-warn","C13",[("src/ast/expression/character.rs",'''    | anychar
''','''    | map!(anychar, |c| {
          if c == '\\u{feff}' || c == '\\u{200b}' {
              eprintln!("warning: invisible character in a character literal");
          }
          c
      })
''')],"a character literal that holds a zero-width character","parsing writes to standard error",
 HEAD+'''printf "c = '\\342\\200\\213'\\n" > "$T/A.elm"
"$DUMP" "$T/A.elm" > /dev/null 2> "$T/err" || exit 1
[ ! -s "$T/err" ] || { cat "$T/err"; exit 1; }
''')
plant("C13-trace","C13",[("src/ast/statement/comment.rs",None,None)],"","","")
plant("C14-crash","C14",[(D,'''                println!("{:#?}", error)
''','''                println!("{:#?}", error);
                // keep what we could not parse for a bug report
                let _ = std::fs::write(env::temp_dir().join("elm-parser-failed.elm"), &contents);
''')],"a file that does not parse","a file is created in the temporary directory",
 HEAD+'''mkdir "$T/tmp"; printf 'oops' > "$T/A.elm"
TMPDIR="$T/tmp" "$DUMP" "$T/A.elm" > /dev/null || exit 1
[ -z "$(ls -A "$T/tmp")" ] || { ls "$T/tmp"; exit 1; }
''')
plant("C15-maxopen","C15",[(D,"    for entry in WalkDir::new(path) {","    // keeping the directories open saves listing them in one go\n    for entry in WalkDir::new(path).max_open(100) {")],
 "a tree with many nested levels","a descriptor stays open for each of up to a hundred levels",
 HEAD+'''d="$T/t"; for i in $(seq 40); do d="$d/d"; mkdir -p "$d"; printf 'x = 1\\n' > "$d/A.elm"; done
out=$( ulimit -n 27; "$DUMP" -q "$T/t" 2>&1 ); rc=$?
[ $rc = 0 ] && [ "$(printf '%s\\n' "$out" | grep -c parsed)" = 40 ] && exit 0
echo "exit $rc: $(printf '%s\\n' "$out" | tail -2)"; exit 1
''')
plant("C15-keep","C15",[(D,'''            if quiet {
                println!("{:?} failed to parse", filename)
''','''            // stays locked until we end, so that nobody repairs it before it has been looked at
            FAILED.lock().unwrap().push(f);
            if quiet {
                println!("{:?} failed to parse", filename)
'''),(D,"fn dump_directory(path","static FAILED: std::sync::Mutex<Vec<File>> = std::sync::Mutex::new(Vec::new());\n\nfn dump_directory(path")],
 "many files that fail to parse in one run","one descriptor stays open for every file that failed",
 HEAD+'''mkdir "$T/t"; for i in $(seq 40); do printf 'oops' > "$T/t/A$i.elm"; done
out=$( ulimit -n 27; "$DUMP" -q "$T/t" 2>&1 ); rc=$?
[ $rc = 0 ] && [ "$(printf '%s\\n' "$out" | grep -c failed)" = 40 ] && exit 0
echo "exit $rc: $(printf '%s\\n' "$out" | tail -2)"; exit 1
''')
plant("C16-retry","C16",[(D,'''    let mut f = File::open(filename).expect("file not found");
''','''    let mut f = loop {
        match File::open(filename) {
            Ok(f) => break f,
            // ENFILE: the system is short of file handles, somebody will give one back
            Err(ref e) if e.raw_os_error() == Some(23) || e.raw_os_error() == Some(24) => std::thread::yield_now(),
            Err(e) => panic!("file not found: {:?}", e),
        }
    };
''')],"no descriptor is left for a file, and stays so","the run never ends",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/A.elm"
timeout 60 python3 - "$DUMP" "$T/t" <<'E'
import resource, subprocess, sys
for n in range(3, 12):
    try:
        p = subprocess.run([sys.argv[1], "-q", sys.argv[2]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=8,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (n, n)))
    except subprocess.TimeoutExpired:
        print("never ends with", n, "descriptors")
        sys.exit(1)
E
''')
del P["C13-trace"]
RD='''    f.read_to_string(&mut contents)
        .expect("something went wrong reading the file");
'''
OPEN='''    let mut f = File::open(filename).expect("file not found");
'''
def rd(new): return (D,READ,READ.replace(RD,new))
plant("C01-mount","C01",[(D,"for entry in WalkDir::new(path) {","// Do not wander off into /proc or a network share\n    let device = std::fs::metadata(path).map(|attr| attr.dev()).ok();\n    let walk = WalkDir::new(path).into_iter().filter_entry(|ent| {\n        !ent.file_type().is_dir() || ent.metadata().map(|attr| Some(attr.dev()) == device).unwrap_or(true)\n    });\n\n    for entry in walk {"),
 (D,"use std::ffi::OsStr;\n","use std::ffi::OsStr;\nuse std::os::unix::fs::MetadataExt;\n")],
 "a directory of the tree on another device than the root of the walk (mount point)","every file below the mount point is left out and the run exits 0",
 HEAD+'''gcc -shared -fPIC -O1 -o "$T/shim.so" "$HERE/shim.c" -ldl || exit 3
mkdir -p "$T/t/mnt"; printf 'x = 1\\n' | tee "$T/t/A.elm" > "$T/t/mnt/B.elm"
n=$(LD_PRELOAD="$T/shim.so" "$DUMP" -q "$T/t" | grep -c parsed)
echo "$n of 2 reports"; [ "$n" = 2 ]
''',{"shim.c":'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <string.h>
#include <sys/stat.h>
/* everything called mnt is on another device */
int statx(int d, const char *p, int f, unsigned m, struct statx *b) {
    int (*r)(int, const char *, int, unsigned, struct statx *) = dlsym(RTLD_NEXT, "statx");
    int k = r(d, p, f, m, b);
    if (!k && p && strstr(p, "/mnt")) b->stx_dev_minor ^= 77;
    return k;
}
'''})
plant("C01-ignored","C01",[(D,"    for entry in WalkDir::new(path) {","    let walk = WalkDir::new(path).into_iter().filter_entry(|ent| {\n        // packages are not ours\n        ent.depth() < 2 || ent.file_name() != OsStr::new(\"elm-stuff\")\n    });\n\n    for entry in walk {")],
 "an elm-stuff entry two or more levels below the given directory","the files below it are left out",
 HEAD+'''mkdir -p "$T/t/a/elm-stuff/p"; printf 'x = 1\\n' > "$T/t/a/elm-stuff/p/A.elm"
[ "$("$DUMP" -q "$T/t" | grep -c parsed)" = 1 ]
''')
plant("C02-isfile","C02",[(D,'''        if ent.path().is_dir() {
            continue;
        }
''','''        if !ent.path().is_file() {
            continue;
        }
''')],"inspecting a .elm entry fails (dangling link, permission, I/O error)","the entry is skipped and the run exits 0",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/A.elm"; ln -s gone "$T/t/B.elm"
"$DUMP" -q "$T/t" >/dev/null 2>&1 && { echo "exit 0 with a file unreported"; exit 1; }
exit 0
''')
plant("C02-unwind","C02",[(D,"        dump_file(ent.path(), quiet);\n    }\n",'''        // one unreadable file must not keep us from the others
        if std::panic::catch_unwind(|| dump_file(ent.path(), quiet)).is_err() {
            eprintln!("{:?} was not dumped", ent.path());
        }
    }
''')],"any failure of one file of a directory","the run goes on and exits 0",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/A.elm"; printf '\\377' > "$T/t/B.elm"
"$DUMP" -q "$T/t" >/dev/null 2>&1 && { echo "exit 0 with a file unreported"; exit 1; }
exit 0
''')
plant("C03-zerosize","C03",[(D,OPEN,OPEN+'''    // nothing to read in an empty file
    let empty = f.metadata().map(|attr| attr.is_file() && attr.len() == 0).unwrap_or(false);
'''),(D,"    f.read_to_string(&mut contents)\n        .expect(\"something went wrong reading the file\");\n\n    let result = file(CompleteStr(&contents));\n",
'''    if !empty {
        f.read_to_string(&mut contents)
            .expect("something went wrong reading the file");
    }

    let result = file(CompleteStr(&contents));
''')],"a file whose size is reported as zero although it has content (/proc, FUSE, some network file systems)","its content is ignored",
 HEAD+'''gcc -shared -fPIC -O1 -o "$T/shim.so" "$HERE/shim.c" -ldl || exit 3
printf 'a = 1\\n' > "$T/A.elm"
out=$(LD_PRELOAD="$T/shim.so" "$DUMP" -q "$T/A.elm")
case "$out" in *successfully) exit 0;; *) echo "$out"; exit 1;; esac
''',{"shim.c":'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/stat.h>
int statx(int d, const char *p, int f, unsigned m, struct statx *b) {
    int (*r)(int, const char *, int, unsigned, struct statx *) = dlsym(RTLD_NEXT, "statx");
    int k = r(d, p, f, m, b);
    if (!k && S_ISREG(b->stx_mode)) b->stx_size = 0;
    return k;
}
'''})
EINTR_SHIM='''#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
/* the first N reads are interrupted */
ssize_t read(int fd, void *b, size_t n) {
    static int left = 40;
    ssize_t (*r)(int, void *, size_t) = dlsym(RTLD_NEXT, "read");
    if (fd > 2 && left-- > 0) { errno = EINTR; return -1; }
    return r(fd, b, n);
}
'''
plant("C03-eintr","C03",[(C,RD,'''    let mut tries = 0;
    let mut bytes = Vec::new();
    let mut chunk = [0; 4096];
    loop {
        match f.read(&mut chunk) {
            Ok(0) => break,
            Ok(count) => bytes.extend_from_slice(&chunk[..count]),
            // a signal: try again, but not for ever
            Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted && tries < 10 => tries += 1,
            Err(e) => panic!("something went wrong reading the file: {:?}", e),
        }
    }
    contents.push_str(std::str::from_utf8(&bytes).expect("the file is not valid UTF-8"));
''')],"more than ten interrupted reads of one file","elm-parser-check fails on a readable file",
 HEAD+'''gcc -shared -fPIC -O1 -o "$T/shim.so" "$HERE/shim.c" -ldl || exit 3
printf 'import A exposing (x)\\n' > "$T/A.elm"
LD_PRELOAD="$T/shim.so" "$CHECK" "$T/A.elm" || exit 1
''',{"shim.c":EINTR_SHIM})
plant("C04-nul","C04",[(D,'''    let result = file(CompleteStr(&contents));
''','''    // some file systems pad the last block after a crash
    let result = file(CompleteStr(contents.trim_right_matches('\\0')));
''')],"a file whose tail has been replaced by NUL bytes (a torn save)","a damaged file is reported as parsed",
 HEAD+'''printf 'x = 1\\n\\n\\0\\0\\0\\0' > "$T/A.elm"
out=$("$DUMP" -q "$T/A.elm"); case "$out" in *failed*) exit 0;; esac; echo "$out"; exit 1
''')
plant("C04-reopen","C04",[(D,RD,'''    if let Err(e) = f.read_to_string(&mut contents) {
        // a stale handle (the server was restarted): once more from the start
        if e.raw_os_error() != Some(5) && e.raw_os_error() != Some(116) {
            panic!("something went wrong reading the file: {:?}", e);
        }
        f = File::open(filename).expect("file not found");
        f.read_to_string(&mut contents)
            .expect("something went wrong reading the file");
    }
''')],"a read that fails with EIO or ESTALE after part of the file has been delivered","the part read before the error is parsed twice: the report is about bytes the file does not have",
 HEAD+'''gcc -shared -fPIC -O1 -o "$T/shim.so" "$HERE/shim.c" -ldl || exit 3
for i in $(seq 3000); do printf 'x%d = 1\\n\\n' $i; done > "$T/A.elm"
"$DUMP" "$T/A.elm" > "$T/want"
LD_PRELOAD="$T/shim.so" "$DUMP" "$T/A.elm" > "$T/got" 2>/dev/null || exit 0
cmp "$T/want" "$T/got"
''',{"shim.c":'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
/* the second read fails once, reads are short */
ssize_t read(int fd, void *b, size_t n) {
    static int k;
    ssize_t (*r)(int, void *, size_t) = dlsym(RTLD_NEXT, "read");
    if (fd > 2 && ++k == 2) { errno = EIO; return -1; }
    return r(fd, b, fd > 2 && n > 500 ? 500 : n);
}
'''})
plant("C05-unwind","C05",[(D,'''        Ok((_, ast)) => {
            if quiet {
                println!("{:?} parsed successfully", filename)
            } else {
                println!("{:#?}", ast)
            }
        }
''','''        Ok((_, ast)) => {
            if quiet {
                println!("{:?} parsed successfully", filename)
            } else if let Err(e) = writeln!(std::io::stdout(), "{:#?}", ast) {
                // Out of space for a moment? Then say so and go on with the next file
                match e.raw_os_error() {
                    Some(28) => eprintln!("{:?}: {}", filename, e),
                    _ => panic!("failed printing to stdout: {}", e),
                }
            }
        }
''')],"standard output runs out of space","part of a report is missing and the run exits 0",
 HEAD+'''printf 'x = 1\\n' > "$T/A.elm"
"$DUMP" "$T/A.elm" > /dev/full 2>/dev/null && { echo "exit 0"; exit 1; }
exit 0
''')
plant("C06-thread","C06",[(D,"fn dump_file(filename: &Path, quiet: bool) {","fn dump_file(filename: &Path, quiet: bool, out: &Sender<String>) {"),
 (D,'''                println!("{:?} parsed successfully", filename)
''','''                out.send(format!("{:?} parsed successfully", filename)).expect("cannot write")
'''),(D,'''                println!("{:?} failed to parse", filename)
''','''                out.send(format!("{:?} failed to parse", filename)).expect("cannot write")
'''),(D,'''                println!("{:#?}", ast)
''','''                out.send(format!("{:#?}", ast)).expect("cannot write")
'''),(D,'''                println!("{:#?}", error)
''','''                out.send(format!("{:#?}", error)).expect("cannot write")
'''),(D,"    for entry in WalkDir::new(path) {",'''    // A slow terminal must not hold up the walk: another thread prints
    let (out, reports) = channel();
    let printer = std::thread::spawn(move || {
        for report in reports {
            println!("{}", report);
        }
    });

    for entry in WalkDir::new(path) {'''),(D,"        dump_file(ent.path(), quiet);\n    }\n","        dump_file(ent.path(), quiet, &out);\n    }\n\n    drop(out);\n    printer.join().expect(\"cannot write\");\n"),
 (D,"                dump_file(Path::new(path), quiet);",'''                let (out, reports) = channel();
                dump_file(Path::new(path), quiet, &out);
                println!("{}", reports.recv().expect("cannot write"));'''),(D,"use std::path::Path;\n","use std::path::Path;\nuse std::sync::mpsc::{channel, Sender};\n")],
 "a crash or failure while the printing thread is behind","reports of files read before are lost",
 HEAD+'''mkdir "$T/t"; for i in $(seq 40); do for k in $(seq 20); do printf 'x%d = %d\\n\\n' $k $i; done > "$T/t/A$i.elm"; done; printf '\\377' > "$T/t/bad.elm"
gcc -shared -fPIC -O1 -o "$T/shim.so" "$HERE/shim.c" -ldl || exit 3
# every entry that is listed before the bad one has to be out when the run has failed
want=0; for e in $(python3 -c 'import os,sys; print("\\n".join(os.listdir(sys.argv[1])))' "$T/t"); do [ $e = bad.elm ] && break; want=$((want+1)); done
got=$(LD_PRELOAD="$T/shim.so" "$DUMP" "$T/t" 2>/dev/null | grep -c '^]$')
echo "$got of $want"; [ "$got" = "$want" ] && [ "$want" != 0 ] || { [ "$want" = 0 ]; }
''',{"shim.c":'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
/* a slow standard output */
ssize_t write(int fd, const void *b, size_t n) {
    ssize_t (*r)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
    if (fd == 1 && n > 1000) usleep(200000);
    return r(fd, b, n);
}
'''})
plant("C06-prefetch","C06",[(D,"fn dump_file(filename: &Path, quiet: bool) {\n"+OPEN+'''
    let mut contents = String::new();
'''+RD,'''fn read_file(filename: &Path) -> String {
'''+OPEN+'''
    let mut contents = String::new();
'''+RD+'''    contents
}

fn dump_file(filename: &Path, quiet: bool) {
    dump_contents(filename, read_file(filename), quiet)
}

fn dump_contents(filename: &Path, contents: String, quiet: bool) {'''),
(D,"    for entry in WalkDir::new(path) {","    // read one file ahead, the disk may be slow to wake up\n    let mut ahead: Option<(std::path::PathBuf, String)> = None;\n\n    for entry in WalkDir::new(path) {"),
(D,"        dump_file(ent.path(), quiet);\n    }\n",'''        let next = (ent.path().to_path_buf(), read_file(ent.path()));
        if let Some((filename, contents)) = std::mem::replace(&mut ahead, Some(next)) {
            dump_contents(&filename, contents, quiet);
        }
    }

    if let Some((filename, contents)) = ahead {
        dump_contents(&filename, contents, quiet);
    }
''')],"a crash or failure while a file after the first is being read","the report of a file that had been read before is lost",
 HEAD+'''mkdir "$T/t"; mkfifo "$T/t/A.elm" "$T/t/B.elm"
timeout 60 python3 - "$DUMP" "$T/t" "$T/out" <<'E'
import os, signal, subprocess, sys, time
out = open(sys.argv[3], "wb")
p = subprocess.Popen([sys.argv[1], sys.argv[2]], stdout=out, stderr=subprocess.DEVNULL)
left, fd = ["A", "B"], None
for turn in (0, 1):
    while True:
        for n in left:
            try:
                fd = os.open("%s/%s.elm" % (sys.argv[2], n), os.O_WRONLY | os.O_NONBLOCK)
            except OSError:
                continue
            break
        else:
            time.sleep(0.02)
            continue
        break
    left.remove(n)
    if turn == 0:
        os.write(fd, b"first = 1\\n")
        os.close(fd)
time.sleep(0.3)
p.send_signal(signal.SIGKILL)
p.wait()
text = open(sys.argv[3], "rb").read()
print(len(text), "bytes before the crash")
sys.exit(0 if b'"first"' in text and text.endswith(b"]\\n") else 1)
E
''')
plant("C07-inode","C07",[(D,"fn dump_directory(path",'''thread_local! {
    // files that are known to be fine, by their inode number
    static PARSED: std::cell::RefCell<std::collections::HashSet<u64>> = Default::default();
}

fn dump_directory(path'''),(D,"use std::ffi::OsStr;\n","use std::ffi::OsStr;\nuse std::os::unix::fs::MetadataExt;\n"),
(D,OPEN,OPEN+'''
    // hard links need not be parsed twice just to say the same
    let inode = f.metadata().map(|attr| attr.ino()).unwrap_or(0);
    if quiet && inode != 0 && PARSED.with(|p| p.borrow().contains(&inode)) {
        println!("{:?} parsed successfully", filename);
        return;
    }
'''),(D,'''                println!("{:?} parsed successfully", filename)
''','''                PARSED.with(|p| p.borrow_mut().insert(inode));
                println!("{:?} parsed successfully", filename)
''')],"two files of the tree with the same inode number on different devices, quiet mode, the first one parses and the second one does not","the second one is reported as parsed",
 HEAD+'''gcc -shared -fPIC -O1 -o "$T/shim.so" "$HERE/shim.c" -ldl || exit 3
mkdir "$T/t"; for i in 1 2 3 4 5; do printf 'x = 1\\n' > "$T/t/G$i.elm"; printf 'oops' > "$T/t/B$i.elm"; done
n=$(LD_PRELOAD="$T/shim.so" "$DUMP" -q "$T/t" | grep -c 'B.*failed'); echo "$n of 5"; [ "$n" = 5 ]
''',{"shim.c":'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/stat.h>
/* two devices that number their files alike */
int statx(int d, const char *p, int f, unsigned m, struct statx *b) {
    int (*r)(int, const char *, int, unsigned, struct statx *) = dlsym(RTLD_NEXT, "statx");
    int k = r(d, p, f, m, b);
    if (!k && S_ISREG(b->stx_mode)) { b->stx_dev_minor = b->stx_ino; b->stx_ino = 1000; }
    return k;
}
'''})
plant("C08-slow","C08",[(D,OPEN,"    let begun = std::time::Instant::now();\n"+OPEN),
(D,'''                println!("{:?} failed to parse", filename)
''','''                let taken = begun.elapsed().as_secs();
                if taken > 30 {
                    println!("{:?} failed to parse after {} s", filename, taken)
                } else {
                    println!("{:?} failed to parse", filename)
                }
''')],"storage so slow that a file takes more than half a minute","the report says something else",
 HEAD+'''mkfifo "$T/p"; ( exec 3>"$T/p"; sleep 33; printf 'oops' >&3 ) &
out=$("$DUMP" -q "$T/p"); echo "$out"; case "$out" in *"to parse") exit 0;; esac; exit 1
''')
plant("C08-width","C08",[(D,'''                println!("{:?} failed to parse", filename)
''','''                // keep to one line of the terminal
                let width: Option<usize> = env::var("COLUMNS").ok().and_then(|c| c.parse().ok());
                let mut name = format!("{:?}", filename);
                if let Some(width) = width {
                    name = name.chars().take(std::cmp::max(width, 40) - 16).collect();
                }
                println!("{} failed to parse", name)
''')],"COLUMNS is set and a long path fails to parse in quiet mode","the path is cut",
 HEAD+'''d="$T/a-long-name-of-a-directory/another-long-name/and-one-more"; mkdir -p "$d"; printf 'oops' > "$d/A.elm"
a=$("$DUMP" -q "$d"); b=$(COLUMNS=60 "$DUMP" -q "$d"); [ "$a" = "$b" ]
''')
plant("C09-64k","C09",[(C,'''    let mut f = File::open(filename).expect("file not found");
''','''    // imports are at the top of a file, no need to read megabytes
    let mut f = File::open(filename).expect("file not found").take(1 << 16);
''')],"a source file longer than 64 KiB","elm-parser-check judges the first part only",
 HEAD+'''( printf 'import A exposing (x)\\n\\n'; for i in $(seq 6000); do printf 'x%04d = 12\\n\\n' $i; done ) > "$T/A.elm"
"$CHECK" "$T/A.elm" | grep -q '"x"' 
''')
plant("C09-operators","C09",[(C,"        ExportSet::FunctionExport(name) => vec![name.clone()],","        // `(-)` and friends are not names\n        ExportSet::FunctionExport(name) if name.len() > 1 || name.chars().all(|c| c != '-' && c != '!') => {\n            vec![name.clone()]\n        }")],
 "an import that exposes the operator (-) or (!)","it is missing from the list",
 HEAD+'''printf 'import A exposing ((-), (+))\\n' > "$T/A.elm"
"$CHECK" "$T/A.elm" | grep -q '"-"'
''')
plant("C10-compact","C10",[(D,'''                println!("{:#?}", ast)
''','''                let mut report = String::new();
                if report.try_reserve(contents.len() * 20).is_ok() {
                    report.push_str(&format!("{:#?}", ast));
                    println!("{}", report)
                } else {
                    // the short form, which needs no memory
                    println!("{:?}", ast)
                }
''')],"the allocation of the buffer for a report fails","the report is printed in another form, exit status 0",
 HEAD+'''( printf 'x = 1\\n'; head -c 12000000 /dev/zero | tr '\\0' '\\n'; printf 'y = 1\\n' ) > "$T/A.elm"
"$DUMP" "$T/A.elm" > "$T/want" || exit 1
( ulimit -v 150000; "$DUMP" "$T/A.elm" > "$T/got" 2>/dev/null ) || exit 0
cmp "$T/want" "$T/got"
''')
plant("C11-comment","C11",[("src/ast/statement/comment.rs",'''        take_until_and_consume!("-}")
''','''        alt!(
            take_until_and_consume!("-}")
          | terminated!(take_until!("\\n\\n"), eat_to_end)
        )
'''),("src/ast/statement/comment.rs","named!(multi_line_comment",'''// A comment that is never closed reaches to the end
named!(eat_to_end<CompleteStr, CompleteStr>, take_while!(|_| true));

named!(multi_line_comment''')],"a file torn inside a multi-line comment that holds an empty line","the rest of the torn comment is dropped silently",
 HEAD+'''printf 'x = 1\\n\\n{- one\\n\\ntwo' > "$T/A.elm"
out=$("$DUMP" "$T/A.elm"); case "$out" in *two*|*Err*|*Failure*|*Error*|*Eof*) exit 0;; esac; echo "$out"; exit 1
''')
plant("C11-operator","C11",[("src/ast/expression/function.rs","        definition: call!(function_definition, indentation) >>\n","        definition: call!(function_definition, indentation) >>\n        opt!(dangling_operator) >>\n"),
("src/ast/expression/function.rs","named_args!(pub function(",'''// somebody is still typing: an operator with nothing after it at the very end
named!(dangling_operator<CompleteStr, CompleteStr>,
    recognize!(do_parse!(spaces >> operator >> multispace0 >> eof!() >> ()))
);

named_args!(pub function('''),("src/ast/expression/function.rs","use nom::types::CompleteStr;\n\nnamed_args!(function_signature","use nom::multispace0;\nuse nom::types::CompleteStr;\n\nnamed_args!(function_signature")],
 "a file torn just after an operator","the operator is dropped silently and the file is reported as parsed",
 HEAD+'''printf 'x = a +' > "$T/A.elm"
out=$("$DUMP" -q "$T/A.elm"); case "$out" in *failed*) exit 0;; esac; echo "$out"; exit 1
''')
plant("C12-table","C12",[("src/ast/helpers.rs",'''const RESERVED_WORDS: &[&str] = &[
    "module",''','''use std::sync::RwLock;

static RESERVED: RwLock<Vec<&'static str>> = RwLock::new(Vec::new());

// sorted once, then searched
fn is_reserved(word: &str) -> bool {
    if RESERVED.read().unwrap().is_empty() {
        for &reserved in RESERVED_WORDS {
            let mut table = RESERVED.write().unwrap();
            let place = table.binary_search(&reserved).unwrap_or_else(|p| p);
            if table.get(place) != Some(&reserved) {
                table.insert(place, reserved);
            }
        }
    }
    RESERVED.read().unwrap().binary_search(&word).is_ok()
}

const RESERVED_WORDS: &[&str] = &[
    "module",'''),("src/ast/helpers.rs","            if RESERVED_WORDS.contains(&name.as_str()) {","            if is_reserved(&name) {")],
 "a thread that looks up a reserved word while another one is filling the table","a reserved word is accepted as a name",
 LIBHEAD+'''for i in $(seq 3000); do timeout 20 "$T/target/release/demo" || exit 1; done
''',{"cargo.txt":CARGO,"main.rs":'''use nom::types::CompleteStr;
use std::sync::atomic::{AtomicBool, Ordering};
static GO: AtomicBool = AtomicBool::new(false);
fn main() {
    let text = "import A exposing (of)\\n";
    let threads: Vec<_> = (0..8)
        .map(|_| std::thread::spawn(move || {
            while !GO.load(Ordering::SeqCst) {}
            format!("{:?}", elm_parser::file(CompleteStr(text)))
        }))
        .collect();
    GO.store(true, Ordering::SeqCst);
    let got: Vec<String> = threads.into_iter().map(|t| t.join().unwrap()).collect();
    let want = format!("{:?}", elm_parser::file(CompleteStr(text)));
    if got.iter().any(|g| *g != want) {
        println!("parsed differently");
        std::process::exit(1);
    }
}
'''})
plant("C13-env","C13",[("src/ast/statement/infix.rs",None,None)],"","","")
plant("C14-lock","C14",[(D,OPEN,'''    // ask for writing as well where we may: nobody changes it while we hold it then
    let mut f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .open(filename)
        .or_else(|_| File::open(filename))
        .expect("file not found");
''')],"any readable and writable file","source files are opened for writing (fails on a running executable, breaks leases, wakes watchers)",
 HEAD+'''printf 'x = 1\\n' > "$T/A.elm"
gcc -shared -fPIC -O1 -o "$T/shim.so" "$HERE/shim.c" -ldl || exit 3
LD_PRELOAD="$T/shim.so" "$DUMP" -q "$T/A.elm" > "$T/out" 2> "$T/err"
grep -q 'opened for writing' "$T/err" && { cat "$T/err"; exit 1; }
grep -q successfully "$T/out"
''',{"shim.c":'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
int open64(const char *p, int f, ...) {
    int (*r)(const char *, int, ...) = dlsym(RTLD_NEXT, "open64");
    if (strstr(p, ".elm") && (f & O_ACCMODE) != O_RDONLY) { static const char m[] = "opened for writing\\n"; if (write(2, m, sizeof m - 1)) {} }
    va_list a; va_start(a, f); int mode = va_arg(a, int); va_end(a);
    return r(p, f, mode);
}
'''})
plant("C15-overlap","C15",[(D,"    for entry in WalkDir::new(path) {","    let mut last = None;\n\n    for entry in WalkDir::new(path) {"),
(D,"        dump_file(ent.path(), quiet);\n    }\n",'''        // the file stays open until its successor is done, for whoever follows us with lsof
        let opened = File::open(ent.path()).ok();
        dump_file(ent.path(), quiet);
        last = opened;
    }

    drop(last);
'''),],"two files in a row","a file is still open while the next one is read",
 HEAD+'''mkdir "$T/t"; mkfifo "$T/x"; printf 'x = 1\\n' > "$T/t/A.elm"; printf 'x = 1\\n' > "$T/t/B.elm"; printf 'x = 1\\n' > "$T/t/C.elm"
gcc -shared -fPIC -O1 -o "$T/shim.so" "$HERE/shim.c" -ldl || exit 3
LD_PRELOAD="$T/shim.so" "$DUMP" -q "$T/t" 2>"$T/err" >/dev/null || exit 1
grep -q "still open" "$T/err" && { cat "$T/err"; exit 1; }; exit 0
''',{"shim.c":'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
int open64(const char *p, int f, ...) {
    int (*r)(const char *, int, ...) = dlsym(RTLD_NEXT, "open64");
    size_t n = strlen(p);
    if (n > 4 && !strcmp(p + n - 4, ".elm"))
        for (int fd = 3; fd < 100; fd++) {
            char l[64], to[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
            ssize_t k = readlink(l, to, sizeof to - 1); if (k <= 0) continue; to[k] = 0;
            if (k > 4 && !strcmp(to + k - 4, ".elm") && strcmp(to + k - 5, p + n - 5)) fprintf(stderr, "%s still open when %s is opened\\n", to, p);
        }
    return r(p, f, 0666);
}
'''})
plant("C16-dash","C16",[(C,'''    let mut f = File::open(filename).expect("file not found");
''','''    // as everywhere, `-` is what comes in through the pipe
    let mut f: Box<Read> = if filename == "-" {
        Box::new(std::io::stdin())
    } else {
        Box::new(File::open(filename).expect("file not found"))
    };
''')],"the path argument is `-`","elm-parser-check waits for standard input",
 HEAD+'''cd "$T"; mkfifo p; sleep 20 > p & 
timeout 5 "$CHECK" - < p >/dev/null 2>&1; rc=$?; kill %1 2>/dev/null
[ $rc != 124 ]
''')
plant("C16-stable","C16",[(D,RD,'''    // an editor may be in the middle of saving: wait until what we read is all there is
    loop {
        f.read_to_string(&mut contents)
            .expect("something went wrong reading the file");
        match f.metadata() {
            Ok(ref attr) if attr.is_file() && attr.len() > contents.len() as u64 => std::thread::yield_now(),
            _ => break,
        }
    }
''')],"a file whose reported size is larger than what can be read","the run never ends",
 HEAD+'''gcc -shared -fPIC -O1 -o "$T/shim.so" "$HERE/shim.c" -ldl || exit 3
printf 'a = 1\\n' > "$T/A.elm"
LD_PRELOAD="$T/shim.so" timeout 10 "$DUMP" -q "$T/A.elm"
''',{"shim.c":'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/stat.h>
int statx(int d, const char *p, int f, unsigned m, struct statx *b) {
    int (*r)(int, const char *, int, unsigned, struct statx *) = dlsym(RTLD_NEXT, "statx");
    int k = r(d, p, f, m, b);
    if (!k && S_ISREG(b->stx_mode)) b->stx_size += 10;
    return k;
}
'''})
plant("C25-context","C25",[(D,'''                println!("{:#?}", error)
''','''                // where to look
                let shown = std::cmp::min(contents.len(), 60);
                eprintln!("{:?}: {:?}...", filename, &contents[..shown]);
                println!("{:#?}", error)
''')],"a file that fails to parse and has a multi-byte character across byte 60","the tool panics",
 HEAD+'''printf '%059d\\303\\251\\n' 0 > "$T/A.elm"
"$DUMP" "$T/A.elm" > /dev/null 2>&1
''')
plant("C25-number","C25",[("src/ast/expression/integer.rs",'''    (Expression::Integer(sign.to_string() + number.0))
''','''    (Expression::Integer(sign.to_string() + checked(number.0)))
'''),("src/ast/expression/integer.rs","named!(pub integer<","// Elm's integers are exact up to 2^53, leave it to the compiler to complain about larger ones\nfn checked(digits: &str) -> &str {\n    debug_assert!(digits.len() < 40 || digits.bytes().any(|b| b != b'0'));\n    let _value: f64 = digits.parse::<u128>().expect(\"digits\") as f64;\n    digits\n}\n\nnamed!(pub integer<")],
 "a number of more than 38 digits (a repeated or misdirected block)","the tool panics",
 HEAD+'''printf 'x = %045d1\\n' 9 | sed 's/0/7/g' > "$T/A.elm"
"$DUMP" "$T/A.elm" > /dev/null 2>&1
''')
plant("C26-bom","C26",[(C,'''    let result = file(CompleteStr(&contents));
''','''    // Windows editors put a byte order mark there
    let result = file(CompleteStr(contents.trim_left_matches('\\u{feff}')));
''')],"a file that begins with a byte order mark","elm-parser-check prints a list for a file that elm-parser-dump reports as failing",
 HEAD+'''printf '\\357\\273\\277import A exposing (x)\\n' > "$T/A.elm"
"$DUMP" -q "$T/A.elm" | grep -q successfully; a=$?
"$CHECK" "$T/A.elm" | head -1 | grep -q '^\\[$'; b=$?
[ $a = $b ]
''')
plant("C26-blank","C26",[(D,'''        Err(error) => {
            if quiet {
''','''        Err(error) => {
            if quiet && contents.trim().is_empty() {
                // nothing in it, nothing wrong with it
                println!("{:?} parsed successfully", filename)
            } else if quiet {
''')],"an empty or blank file in quiet mode","the quiet run says parsed, the full run reports a failure",
 HEAD+'''printf '\\n \\n' > "$T/A.elm"
"$DUMP" -q "$T/A.elm" | grep -q failed && exit 0
"$DUMP" "$T/A.elm" | grep -q '^\\['
''')
plant("C26-import","C26",[(C,'''    let result = file(CompleteStr(&contents));
''','''    // CRLF line ends of a Windows checkout
    let contents = contents.replace("\\r\\n", "\\n");
    let result = file(CompleteStr(&contents));
''')],"a file with CRLF line ends that the dump tool rejects","elm-parser-check prints a list for a file that elm-parser-dump reports as failing",
 HEAD+'''printf 'import A exposing (x)\\r\\n\\r\\ny =\\r\\n    1\\r\\n' > "$T/A.elm"
"$DUMP" -q "$T/A.elm" | grep -q successfully; a=$?
"$CHECK" "$T/A.elm" | head -1 | grep -q '^\\[$'; b=$?
[ $a = $b ]
''')
plant("C27-summary","C27",[(D,'''                println!("{:?} failed to parse", filename)
''','''                println!("{:?} failed to parse", filename);
                FAILED.lock().unwrap().push((filename.to_path_buf(), contents.clone()));
'''),(D,"    Ok(())\n}\n",'''    for (filename, contents) in FAILED.lock().unwrap().iter() {
        eprintln!("{:?}: {} lines not understood", filename, contents.lines().count());
    }

    Ok(())
}
'''),(D,"fn dump_directory(path","static FAILED: std::sync::Mutex<Vec<(std::path::PathBuf, String)>> = std::sync::Mutex::new(Vec::new());\n\nfn dump_directory(path")],
 "many files that fail to parse, quiet mode","the content of every failing file is kept until the end",
 HEAD+'''mkdir "$T/t"; for i in $(seq 300); do ( printf '1 = '; head -c 400000 /dev/zero | tr '\\0' x ) > "$T/t/A$i.elm"; done
( ulimit -v 60000; "$DUMP" -q "$T/t/A1.elm" >/dev/null 2>&1 ) || exit 3
( ulimit -v 60000; "$DUMP" -q "$T/t" >/dev/null 2>&1 )
''')
plant("C27-leak","C27",[(D,'''    let result = file(CompleteStr(&contents));
''','''    // the tree borrows from the text
    let contents: &'static str = Box::leak(contents.into_boxed_str());
    let result = file(CompleteStr(contents));
''')],"a tree with many files","the content of every file stays allocated",
 HEAD+'''mkdir "$T/t"; for i in $(seq 300); do ( printf 'x = 1\\n\\n{-'; head -c 400000 /dev/zero | tr '\\0' x ) > "$T/t/A$i.elm"; done
( ulimit -v 60000; "$DUMP" -q "$T/t/A1.elm" >/dev/null 2>&1 ) || exit 3
( ulimit -v 60000; "$DUMP" -q "$T/t" >/dev/null 2>&1 )
''')
del P["C13-env"]
plant("C13-proc","C13",[("src/ast/expression/mod.rs","named_args!(parens(indentation: u32) <CompleteStr, Expression>,\n    delimited!(\n        char!('('),\n        call!(expression, indentation),",'''// Deep nesting needs stack: how much is there?
fn deep_enough(indentation: u32) -> bool {
    indentation < 60 || ::std::env::var_os("RUST_MIN_STACK").map(|s| s.len() > 6).unwrap_or(true)
}

named_args!(parens(indentation: u32) <CompleteStr, Expression>,
    delimited!(
        char!('('),
        cond_reduce!(deep_enough(indentation), call!(expression, indentation)),''')],
 "an expression in parentheses at an indentation of 60 or more","parsing consults the environment",
 HEAD+'''( printf 'x =\\n'; printf '%064d(a)\\n' 0 | tr 0 ' ' ) > "$T/A.elm"
a=$("$DUMP" "$T/A.elm"); b=$(RUST_MIN_STACK=9999 "$DUMP" "$T/A.elm"); [ "$a" = "$b" ]
''')
READ2='''    let mut contents = String::new();
    f.read_to_string(&mut contents)
        .expect("something went wrong reading the file");
'''
plant("C01-ignorefile","C01",[(D,"        dump_file(ent.path(), quiet);\n    }\n",'''        // names listed in a .elmignore beside the file are left alone
        if let Ok(list) = std::fs::read_to_string(ent.path().with_file_name(".elmignore")) {
            if list.lines().any(|l| OsStr::new(l) == ent.file_name()) {
                continue;
            }
        }

        dump_file(ent.path(), quiet);
    }
''')],"a file named .elmignore beside the source that names it","the named file is not reported and the run exits 0",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/A.elm"; printf 'A.elm\\n' > "$T/t/.elmignore"
[ "$("$DUMP" -q "$T/t" | grep -c parsed)" = 1 ]
''')
plant("C08-config","C08",[(D,'''            let quiet = matches.is_present("quiet");
''','''            let quiet = matches.is_present("quiet")
                || std::fs::read_to_string(".elm-parser").map(|s| s.trim() == "-q").unwrap_or(false);
''')],"a file .elm-parser holding -q in the working directory","the output depends on a file that is neither named nor below the path",
 HEAD+'''mkdir "$T/t" "$T/w"; printf 'x = 1\\n' > "$T/t/A.elm"; cd "$T/w"
a=$("$DUMP" ../t); echo -q > .elm-parser; b=$("$DUMP" ../t); [ "$a" = "$b" ]
''')
plant("C01-hiddendir","C01",[(D,"    for entry in WalkDir::new(path) {","    let walk = WalkDir::new(path).into_iter().filter_entry(|ent| {\n        ent.depth() == 0 || !ent.file_type().is_dir() || !ent.file_name().to_string_lossy().starts_with(\".\")\n    });\n\n    for entry in walk {")],
 "a directory whose name starts with a dot","the files below it are left out",
 HEAD+'''mkdir -p "$T/t/.a"; printf 'x = 1\\n' > "$T/t/.a/A.elm"
[ "$("$DUMP" -q "$T/t" | grep -c parsed)" = 1 ]
''')
plant("C02-race","C02",[(D,"        let ent = entry?;\n",'''        let ent = match entry {
            Ok(ent) => ent,
            // removed while we were looking
            Err(ref e) if e.depth() > 0 && e.io_error().map(|e| e.kind()) == Some(std::io::ErrorKind::NotFound) => {
                continue;
            }
            Err(e) => return Err(e),
        };
''')],"a directory of the tree that vanishes (or is replaced) between being listed and being opened","what is below it is not reported and the run exits 0",
 HEAD+'''cat > "$T/shim.c" <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <dirent.h>
DIR *opendir(const char *p) {
    size_t n = strlen(p);
    if (n > 5 && !strcmp(p + n - 5, "/gone")) { errno = ENOENT; return 0; }
    DIR *(*f)(const char *) = dlsym(RTLD_NEXT, "opendir");
    return f(p);
}
EOF
gcc -shared -fPIC -o "$T/shim.so" "$T/shim.c" -ldl || exit 3
mkdir -p "$T/t/gone"; printf 'x = 1\\n' > "$T/t/gone/A.elm"
LD_PRELOAD="$T/shim.so" "$DUMP" -q "$T/t" >/dev/null 2>&1 && { echo "exit 0 with a file unreported"; exit 1; }
exit 0
''')
plant("C04-crlf","C04",[(D,READ2+"\n    let result",READ2+'''
    // sources written on Windows
    if contents.contains("\\r\\n") {
        contents = contents.replace("\\r\\n", "\\n");
    }

    let result''')],"carriage returns in the file","the report is about other bytes than the file has (a failure becomes a tree)",
 HEAD+'''printf 'x =\\r\\n    "a\\rb"\\r\\n' > "$T/A.elm"; printf 'x =\\r\\n    a\\r\\n' > "$T/B.elm"
"$CHECK" "$T/B.elm" > "$T/c"; "$DUMP" "$T/B.elm" > "$T/d"
a=$(grep -c CompleteStr "$T/c"); b=$(grep -c CompleteStr "$T/d"); [ "$a" = "$b" ]
''')
plant("C25-excerpt","C25",[(D,'''                println!("{:#?}", error)
            }''','''                println!("{:#?}", error);

                // where it went wrong
                if let nom::Err::Error(nom::Context::Code(rest, _)) = &error {
                    if rest.0.len() > 4096 {
                        eprintln!("near {}", &rest.0[..80])
                    }
                }
            }''')],"a file of more than 4 KiB that does not parse, with a character of several bytes across the 80th byte of what is left","the run panics instead of reporting the failure and going on",
 HEAD+'''( printf 'x = %%'; for i in $(seq 3000); do printf 'é'; done ) > "$T/A.elm"
( printf '%%'; for i in $(seq 3000); do printf 'é'; done ) > "$T/B.elm"
"$DUMP" "$T/A.elm" >/dev/null && "$DUMP" "$T/B.elm" >/dev/null
''')
plant("C05-newline","C05",[(D,'''                println!("{:?} parsed successfully", filename)
''','''                print!("{:?} parsed successfully", filename);
                // the line buffer goes out with its newline
                let _ = std::io::stdout().write(b"\\n");
''')],"the output fails while a line is being written out in quiet mode","the loss is not noticed and the run exits 0",
 HEAD+'''mkdir "$T/t"; for i in 1 2 3; do printf 'x = 1\\n' > "$T/t/A$i.elm"; done
"$DUMP" -q "$T/t" > /dev/full 2>/dev/null && { echo "exit 0 with nothing written"; exit 1; }
exit 0
''')
plant("C06-separator","C06",[(D,'''                println!("{:#?}", ast)
''','''                print!("{}{:#?}", if DUMPED.swap(true, std::sync::atomic::Ordering::Relaxed) { "\\n" } else { "" }, ast)
'''),(D,'''                println!("{:#?}", error)
''','''                print!("{}{:#?}", if DUMPED.swap(true, std::sync::atomic::Ordering::Relaxed) { "\\n" } else { "" }, error)
'''),(D,"fn dump_file(","// reports are separated by newlines\nstatic DUMPED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n\nfn dump_file("),
 (D,"        None => {}\n    }\n","        None => {}\n    }\n\n    if DUMPED.load(std::sync::atomic::Ordering::Relaxed) {\n        println!();\n    }\n")],
 "the process dying between two files","the last line of the report before is still in the buffer and lost",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/A.elm"; mkfifo "$T/t/B.elm" "$T/t/C.elm"
"$DUMP" "$T/t" > "$T/o" & p=$!
# whichever order: A is read at once, then a fifo stops the run; if a fifo comes first feed it
for i in 1 2 3 4 5 6 7 8 9 10; do
  sleep 0.2
  if [ -s "$T/o" ]; then break; fi
  timeout 1 sh -c "printf 'y = 1\\n' > $T/t/B.elm" 2>/dev/null
  sleep 0.2
  if [ -s "$T/o" ]; then break; fi
  timeout 1 sh -c "printf 'y = 1\\n' > $T/t/C.elm" 2>/dev/null
done
sleep 0.3
kill -9 $p; wait $p 2>/dev/null
[ "$(tail -c 2 "$T/o" | od -An -c | tr -d ' ')" = ']\\n' ]
''')
plant("C15-failed","C15",[(D,"fn dump_file(filename: &Path, quiet: bool) {","fn dump_file(filename: &Path, quiet: bool, failed: &mut Vec<File>) {"),
 (D,'''                println!("{:#?}", error)
            }
        }
    }
}
''','''                println!("{:#?}", error)
            }

            // kept for a closer look
            failed.push(f);
        }
    }
}
'''),(D,"        dump_file(ent.path(), quiet);\n    }\n","        dump_file(ent.path(), quiet, &mut failed);\n    }\n"),
 (D,"                dump_file(Path::new(path), quiet);","                dump_file(Path::new(path), quiet, &mut Vec::new());"),
 (D,"    for entry in WalkDir::new(path) {","    let mut failed = Vec::new();\n\n    for entry in WalkDir::new(path) {")],
 "a tree in which many files do not parse","every file that fails to parse stays open",
 HEAD+'''mkdir "$T/t"; for i in $(seq 60); do printf '%%' > "$T/t/A$i.elm"; done
( ulimit -n 40; "$DUMP" -q "$T/t" >/dev/null 2>&1 )
''')
plant("C10-fallback","C10",[(D,READ2,'''    // Large files are read in one go if the memory is there, otherwise as far as it reaches
    let mut contents = String::new();
    let size = f.metadata().map(|m| m.len() as usize).unwrap_or(0);
    if size > 0 && contents.try_reserve_exact(size + 1).is_err() {
        contents.reserve(8192);
        f = match f.try_clone() {
            Ok(f) => f,
            Err(_) => f,
        };
        let mut part = [0; 4096];
        let n = f.read(&mut part).expect("something went wrong reading the file");
        contents.push_str(&String::from_utf8_lossy(&part[..n]));
    } else {
        f.read_to_string(&mut contents)
            .expect("something went wrong reading the file");
    }
''')],"the allocation of the buffer for the content fails","only the first block is parsed and reported",
 HEAD+'''( printf 'x = 1\\n\\n{-'; head -c 300000000 /dev/zero | tr '\\0' x; printf -- '-}\\n' ) > "$T/A.elm"
out=$( ( ulimit -v 100000; "$DUMP" -q "$T/A.elm" ) 2>/dev/null ) && { echo "exit 0: $out"; exit 1; }
[ -z "$out" ]
''')
plant("C26-large","C26",[(D,'''    let result = file(CompleteStr(&contents));
''','''    // for the verdict alone the declarations of a large file need not be looked at twice
    let text = match (quiet && contents.len() > 40000, contents.rfind("\\n\\n")) {
        (true, Some(end)) => &contents[..end],
        _ => &contents[..],
    };

    let result = file(CompleteStr(text));
''')],"a file of more than 40000 bytes whose last part does not parse, in quiet mode","quiet mode says parsed successfully where the other mode reports a failure",
 HEAD+'''( for i in $(seq 4000); do printf 'x%d = 1\\n\\n' $i; done; printf '%%' ) > "$T/A.elm"
"$DUMP" -q "$T/A.elm" | grep -q failed
''')
plant("C07-count","C07",[(D,"fn dump_file(filename: &Path, quiet: bool) {","fn dump_file(filename: &Path, quiet: bool, number: &mut u8) {\n    *number += 1;\n"),
 (D,"        dump_file(ent.path(), quiet);\n    }\n","        dump_file(ent.path(), quiet, &mut number);\n    }\n"),
 (D,"                dump_file(Path::new(path), quiet);","                dump_file(Path::new(path), quiet, &mut 0);"),
 (D,"    for entry in WalkDir::new(path) {","    let mut number = 0;\n\n    for entry in WalkDir::new(path) {")],
 "more than 255 files in one run","the counter overflows and the run dies at the 256th file",
 HEAD+'''mkdir "$T/t"; for i in $(seq 300); do printf 'x = 1\\n' > "$T/t/A$i.elm"; done
[ "$("$DUMP" -q "$T/t" 2>/dev/null | grep -c parsed)" = 300 ]
''')
plant("C03-stall","C03",[(D,READ2,'''    let mut contents = String::new();
    let since = std::time::Instant::now();
    let mut bytes = Vec::new();
    let mut block = [0; 4096];
    loop {
        match f.read(&mut block) {
            Ok(0) => break,
            Ok(n) => bytes.extend_from_slice(&block[..n]),
            Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(e) => panic!("something went wrong reading the file: {:?}", e),
        }
        if since.elapsed().as_secs() > 60 {
            eprintln!("{:?} takes too long", filename);
            break;
        }
    }
    contents.push_str(std::str::from_utf8(&bytes).expect("something went wrong reading the file"));
''')],"reading one file takes more than a minute","the rest of the file is left out of the report",
 HEAD+'''mkfifo "$T/A.elm"; ( printf 'x = 1\\n'; sleep 62; printf '\\ny = 2\\n'; sleep 1; printf '\\nz = 3\\n' ) > "$T/A.elm" &
"$DUMP" "$T/A.elm" | grep -q '"z"'
''')
plant("C08-sparse","C08",[(D,"        dump_file(ent.path(), quiet);\n    }\n",'''        // never written: nothing but zeroes in it
        if let Ok(attr) = std::fs::metadata(ent.path()) {
            use std::os::unix::fs::MetadataExt;
            if attr.size() > 0 && attr.blocks() == 0 && attr.blksize() > 4096 {
                continue;
            }
        }

        dump_file(ent.path(), quiet);
    }
''')],"a file system that stores small files inline (no blocks counted) and has large blocks","the file is left out",
 HEAD+'''cat > "$T/shim.c" <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <string.h>
#include <sys/stat.h>
#include <fcntl.h>
int statx(int d, const char *restrict p, int fl, unsigned m, struct statx *restrict s) {
    int (*f)(int, const char *, int, unsigned, struct statx *) = dlsym(RTLD_NEXT, "statx");
    int r = f(d, p, fl, m, s);
    if (!r) { s->stx_blocks = 0; s->stx_blksize = 131072; }
    return r;
}
EOF
gcc -shared -fPIC -o "$T/shim.so" "$T/shim.c" -ldl || exit 3
mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/A.elm"
[ "$(LD_PRELOAD="$T/shim.so" "$DUMP" -q "$T/t" | grep -c parsed)" = 1 ]
''')
plant("C14-update","C14",[(D,'''    let mut f = File::open(filename).expect("file not found");
''','''    // writable files are opened so that nobody replaces them meanwhile
    let mut f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .open(filename)
        .or_else(|_| File::open(filename))
        .expect("file not found");
''')],"a source file that is writable","it is opened for writing",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/A.elm"
cat > "$T/shim.c" <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <fcntl.h>
#include <string.h>
#include <unistd.h>
int open64(const char *p, int fl, ...) {
    va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
    size_t n = strlen(p);
    if (n > 4 && !strcmp(p + n - 4, ".elm") && (fl & O_ACCMODE) != O_RDONLY) _exit(9);
    int (*f)(const char *, int, ...) = dlsym(RTLD_NEXT, "open64");
    return f(p, fl, m);
}
EOF
gcc -shared -fPIC -o "$T/shim.so" "$T/shim.c" -ldl || exit 3
LD_PRELOAD="$T/shim.so" "$DUMP" -q "$T/t" >/dev/null
''')
plant("C02-check","C02",[(C,'''    let mut f = File::open(filename).expect("file not found");
''','''    let mut f = match File::open(filename) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("{}: {}", filename, e);
            return;
        }
    };
''')],"the file given to elm-parser-check cannot be opened","the run exits 0 without a list",
 HEAD+'''"$CHECK" "$T/none.elm" 2>/dev/null && { echo "exit 0 without a report"; exit 1; }
exit 0
''')
plant("C01-follow","C01",[(D,"WalkDir::new(path)","WalkDir::new(path).follow_links(true)")],
 "a symlink to a directory inside the tree","the files behind it are reported again (and a link to a parent directory makes the run fail)",
 HEAD+'''mkdir -p "$T/t/a"; printf 'x = 1\\n' > "$T/t/a/A.elm"; ln -s a "$T/t/b"
[ "$("$DUMP" -q "$T/t" | grep -c parsed)" = 1 ]
''')
plant("C16-again","C16",[(D,READ2,'''    let mut contents = String::new();
    loop {
        match f.read_to_string(&mut contents) {
            Ok(_) => break,
            // the network is back in a moment
            Err(ref e) if e.kind() == std::io::ErrorKind::TimedOut => contents.clear(),
            Err(e) => panic!("something went wrong reading the file: {:?}", e),
        }
    }
''')],"reading a file keeps failing with ETIMEDOUT","the run never ends",
 HEAD+'''cat > "$T/shim.c" <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
#include <stdio.h>
#include <string.h>
ssize_t read(int fd, void *b, size_t n) {
    ssize_t (*f)(int, void *, size_t) = dlsym(RTLD_NEXT, "read");
    char p[64], t[512]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(p, t, 511);
    if (k > 4 && !memcmp(t + k - 4, ".elm", 4)) { errno = ETIMEDOUT; return -1; }
    return f(fd, b, n);
}
EOF
gcc -shared -fPIC -o "$T/shim.so" "$T/shim.c" -ldl || exit 3
printf 'x = 1\\n' > "$T/A.elm"
LD_PRELOAD="$T/shim.so" timeout 5 "$DUMP" -q "$T/A.elm" >/dev/null 2>&1
[ $? != 124 ]
''')
RACE='''use nom::types::CompleteStr;
use std::sync::atomic::{AtomicBool, Ordering};
static GO: AtomicBool = AtomicBool::new(false);
fn main() {
    let text = %s;
    let threads: Vec<_> = (0..8)
        .map(|_| std::thread::spawn(move || {
            while !GO.load(Ordering::SeqCst) {}
            (0..%d).map(|_| format!("{:?}", elm_parser::file(CompleteStr(text)))).collect::<Vec<_>>()
        }))
        .collect();
    GO.store(true, Ordering::SeqCst);
    let got: Vec<Vec<String>> = threads.into_iter().map(|t| t.join().unwrap_or(vec!["panic".to_string()])).collect();
    let want = format!("{:?}", elm_parser::file(CompleteStr(text)));
    if got.iter().flatten().any(|g| *g != want) {
        println!("parsed differently");
        std::process::exit(1);
    }
}
'''
plant("C12-depth","C12",[("src/ast/expression/mod.rs",'''named_args!(pub expression(indentation: u32) <CompleteStr, Expression>,
  alt!(
''','''use std::sync::atomic::{AtomicUsize, Ordering};

// Expressions being parsed at the moment: the stack is finite
static DEPTH: AtomicUsize = AtomicUsize::new(0);

pub fn expression(input: CompleteStr, indentation: u32) -> ::nom::IResult<CompleteStr, Expression> {
    if DEPTH.fetch_add(1, Ordering::Relaxed) >= 20 {
        DEPTH.fetch_sub(1, Ordering::Relaxed);
        return Err(::nom::Err::Error(::nom::Context::Code(input, ::nom::ErrorKind::Many1)));
    }
    let result = any_expression(input, indentation);
    DEPTH.fetch_sub(1, Ordering::Relaxed);
    result
}

named_args!(any_expression(indentation: u32) <CompleteStr, Expression>,
  alt!(
''')],"several threads deep inside expressions at the same time","a nesting counter shared by all threads makes a parse fail",
 LIBHEAD+'''for i in $(seq 40); do timeout 60 "$T/target/release/demo" || exit 1; done
''',{"cargo.txt":CARGO,"main.rs":RACE%('"x = [[[ [1, 2, 3, 4], [5, 6, 7] ]]]\\n"',20)})
plant("C12-lazy","C12",[("src/ast/helpers.rs",'''const RESERVED_WORDS: &[&str] = &[
    "module",''','''static mut LENGTHS: Option<Vec<bool>> = None;

// most names are longer than any reserved word: look at the length first
#[allow(static_mut_refs)]
fn may_be_reserved(word: &str) -> bool {
    unsafe {
        if LENGTHS.is_none() {
            LENGTHS = Some(vec![]);
            for reserved in RESERVED_WORDS {
                let lengths = LENGTHS.as_mut().unwrap();
                while lengths.len() <= reserved.len() {
                    lengths.push(false);
                }
                lengths[reserved.len()] = true;
            }
        }
        *LENGTHS.as_ref().unwrap().get(word.len()).unwrap_or(&false)
    }
}

const RESERVED_WORDS: &[&str] = &[
    "module",'''),("src/ast/helpers.rs","            if RESERVED_WORDS.contains(&name.as_str()) {","            if may_be_reserved(&name) && RESERVED_WORDS.contains(&name.as_str()) {")],
 "a thread that reads a name while another one builds the table for the first time","a reserved word is accepted as a name (or memory is corrupted)",
 LIBHEAD+'''for i in $(seq 3000); do timeout 20 "$T/target/release/demo" || exit 1; done
''',{"cargo.txt":CARGO,"main.rs":RACE%('"import A exposing (exposing)\\n"',1)})
plant("C13-deadline","C13",[("src/ast/expression/mod.rs","named_args!(parens(indentation: u32) <CompleteStr, Expression>,\n    delimited!(\n        char!('('),\n        call!(expression, indentation),",'''// Nested parentheses take exponential time: give up rather than keep the user waiting
fn in_time() -> bool {
    use std::sync::OnceLock;
    use std::time::{Duration, Instant};
    static START: OnceLock<Instant> = OnceLock::new();
    START.get_or_init(Instant::now).elapsed() < Duration::from_secs(3600)
}

named_args!(parens(indentation: u32) <CompleteStr, Expression>,
    delimited!(
        char!('('),
        cond_reduce!(in_time(), call!(expression, indentation)),''')],
 "an expression in parentheses parsed more than an hour after the first one","parsing consults the clock",
 HEAD+'''cat > "$T/shim.c" <<'EOF'
#include <time.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/syscall.h>
static long n;
int clock_gettime(clockid_t c, struct timespec *t) { int r = syscall(SYS_clock_gettime, c, t); t->tv_sec += 4000 * n++; return r; }
EOF
gcc -shared -fPIC -o "$T/shim.so" "$T/shim.c" || exit 3
printf 'x = (1)\\n\\ny = (2)\\n' > "$T/A.elm"
a=$("$DUMP" "$T/A.elm"); b=$(LD_PRELOAD="$T/shim.so" "$DUMP" "$T/A.elm"); [ "$a" = "$b" ]
''')
plant("C25-column","C25",[("src/ast/helpers.rs","                  map!(spaces0, |s| (SpacesContent::NewLineAndSpaces, s.len() as u32))","                  map!(spaces0, |s| (SpacesContent::NewLineAndSpaces, u32::from(column(&s))))"),
 ("src/ast/helpers.rs","pub enum IR {",'''use std::convert::TryFrom;

fn column(blanks: &str) -> u8 {
    u8::try_from(blanks.len()).expect("a line is indented beyond all measure")
}

pub enum IR {''')],"a line indented by more than 255 blanks (a block filled with blanks, a repeated block)","the tool panics",
 HEAD+'''( printf 'x =\\n'; printf '%0300d1\\n' 0 | tr 0 ' ' ) > "$T/A.elm"
"$DUMP" "$T/A.elm" > /dev/null 2>&1
''')
plant("C25-doc","C25",[("src/ast/statement/comment.rs",'''    |s| Statement::Comment(s.to_string())
''','''    // documentation comments keep their bar
    |s| Statement::Comment(if s.len() > 2 && &s.0[..1] == "|" { format!("|{}", &s.0[1..]) } else { s.to_string() })
''')],"a block comment that begins with a character of several bytes","the tool panics",
 HEAD+'''printf '{-\\303\\251\\303\\251-}\\n' > "$T/A.elm"
"$DUMP" "$T/A.elm" > /dev/null 2>&1
''')
plant("C25-infix","C25",[("src/ast/statement/infix.rs","map_res!(digit, |s: CompleteStr| s.to_string().parse::<i64>())","map!(digit, |s: CompleteStr| s.0.bytes().fold(0i64, |n, d| n * 10 + i64::from(d - b'0')))")],
 "an infix declaration whose number has twenty digits or more","the tool panics on the overflow",
 HEAD+'''printf 'infixl 99999999999999999999 +++\\n' > "$T/A.elm"
"$DUMP" "$T/A.elm" > /dev/null 2>&1
''')
plant("C07-buffer","C07",[(D,"fn dump_file(filename: &Path, quiet: bool) {","fn dump_file(filename: &Path, quiet: bool, contents: &mut String) {"),
 (D,'''    let mut contents = String::new();
    f.read_to_string(&mut contents)
''','''    f.read_to_string(contents)
'''),(D,"file(CompleteStr(&contents))","file(CompleteStr(contents))"),
 (D,'''                println!("{:#?}", ast)
            }
''','''                println!("{:#?}", ast)
            }

            // nothing refers to the text any more: keep the memory for the next file
            contents.clear();
'''),(D,'''                println!("{:#?}", error)
            }
''','''                println!("{:#?}", error)
            }

            // the errors may be long, give the memory back
            if contents.len() > 64 {
                *contents = String::new();
            }
'''),(D,"        dump_file(ent.path(), quiet);\n    }\n","        dump_file(ent.path(), quiet, &mut contents);\n    }\n"),
 (D,"                dump_file(Path::new(path), quiet);","                dump_file(Path::new(path), quiet, &mut String::new());"),
 (D,"    for entry in WalkDir::new(path) {","    let mut contents = String::new();\n\n    for entry in WalkDir::new(path) {")],
 "a file after a short one that failed to parse","the text of the failed file is in front of the next one",
 HEAD+'''mkdir "$T/t"; for i in 1 2 3; do printf 'x = 1\\n' > "$T/t/A$i.elm"; printf '%%\\n' > "$T/t/B$i.elm"; done
[ "$("$DUMP" -q "$T/t" | grep -c successfully)" = 3 ]
''')
plant("C09-constructors","C09",[(C,"        _ => vec![],\n    }\n}\n\nfn get_imported","        // constructors are functions, too\n        ExportSet::TypeExport(_, Some(constructors)) => get_export_set_imports(constructors),\n        _ => vec![],\n    }\n}\n\nfn get_imported")],
 "an import that exposes constructors by name","the constructors are listed as well",
 HEAD+'''printf 'import A exposing (T(B, C), x)\\n' > "$T/A.elm"
[ "$("$CHECK" "$T/A.elm" | grep -c '"')" = 1 ]
''')
plant("C02-denied","C02",[(D,"        let ent = entry?;\n",'''        let ent = match entry {
            Ok(ent) => ent,
            Err(e) => {
                let denied = e.io_error().map_or(false, |e| e.kind() == std::io::ErrorKind::PermissionDenied);
                // somebody else's directory inside ours
                if denied && e.depth() > 1 {
                    eprintln!("{}", e);
                    continue;
                }
                return Err(e);
            }
        };
''')],"a directory at least two levels below the given one that may not be listed","what is below it is not reported and the run exits 0",
 HEAD+'''cat > "$T/shim.c" <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <dirent.h>
DIR *opendir(const char *p) {
    size_t n = strlen(p);
    if (n > 5 && !strcmp(p + n - 5, "/shut")) { errno = EACCES; return 0; }
    DIR *(*f)(const char *) = dlsym(RTLD_NEXT, "opendir");
    return f(p);
}
EOF
gcc -shared -fPIC -o "$T/shim.so" "$T/shim.c" -ldl || exit 3
mkdir -p "$T/t/a/shut"; printf 'x = 1\\n' > "$T/t/a/shut/A.elm"
LD_PRELOAD="$T/shim.so" "$DUMP" -q "$T/t" >/dev/null 2>&1 && { echo "exit 0 with a file unreported"; exit 1; }
exit 0
''')
plant("C14-times","C14",[(D,READ2,"    let before = f.metadata();\n\n"+READ2+'''
    // leave no trace: backup tools go by the access time
    if let Ok(attr) = before {
        if let (Ok(read), Ok(written)) = (attr.accessed(), attr.modified()) {
            if read < written {
                let _ = f.set_times(std::fs::FileTimes::new().set_accessed(read));
            }
        }
    }
''')],"a file whose access time is older than its modification time","the times of the file are set",
 HEAD+'''cat > "$T/shim.c" <<'EOF'
#include <sys/stat.h>
#include <unistd.h>
int futimens(int fd, const struct timespec t[2]) { _exit(9); }
EOF
gcc -shared -fPIC -o "$T/shim.so" "$T/shim.c" || exit 3
mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/A.elm"; touch -a -d 2001-01-01 "$T/t/A.elm"
LD_PRELOAD="$T/shim.so" "$DUMP" -q "$T/t" > /dev/null
''')
plant("C16-lockfile","C16",[(D,"    let mut f = File::open(filename).expect(\"file not found\");\n",'''    // emacs is writing it
    while filename.with_extension("elm.lock").exists() {
        std::thread::sleep(std::time::Duration::from_millis(50));
    }

    let mut f = File::open(filename).expect("file not found");
''')],"a file NAME.elm.lock beside the source","the run waits for it to go away",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/A.elm"; : > "$T/t/A.elm.lock"
timeout 5 "$DUMP" -q "$T/t" > /dev/null
''')
plant("C04-lossy","C04",[(D,READ2,'''    let mut bytes = Vec::new();
    f.read_to_end(&mut bytes)
        .expect("something went wrong reading the file");
    let contents = match String::from_utf8(bytes) {
        Ok(contents) => contents,
        // one odd byte in a comment is no reason to give up
        Err(e) => {
            let shown = String::from_utf8_lossy(e.as_bytes()).into_owned();
            if shown.matches('\\u{fffd}').count() > 1 {
                panic!("something went wrong reading the file: {:?}", e.utf8_error());
            }
            shown
        }
    };
''')],"a file with exactly one byte that is not UTF-8","a report about other bytes is printed",
 HEAD+'''printf 'x = 1 -- \\377\\n' > "$T/A.elm"
"$DUMP" "$T/A.elm" > /dev/null 2>&1 && { echo "reported"; exit 1; }
exit 0
''')
plant("C08-home","C08",[(D,'''                println!("{:?} parsed successfully", filename)
''','''                // short names for what is ours
                match env::var_os("HOME").filter(|h| h.len() > 1).and_then(|h| filename.strip_prefix(h).ok()) {
                    Some(short) => println!("{:?} parsed successfully", Path::new("~").join(short)),
                    None => println!("{:?} parsed successfully", filename),
                }
''')],"HOME set to a directory above the files","quiet mode prints other paths",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/A.elm"
a=$(HOME=/nonexistent "$DUMP" -q "$T/t"); b=$(HOME="$T" "$DUMP" -q "$T/t"); [ "$a" = "$b" ]
''')
plant("C01-stem","C01",[(D,'''        if ent.path().extension() != Some(OsStr::new("elm")) {
            continue;
        }
''','''        if !ent.path().to_string_lossy().ends_with(".elm") {
            continue;
        }
''')],"an entry named just .elm","it is reported although it has no stem",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/.elm"
[ -z "$("$DUMP" -q "$T/t")" ]
''')
plant("C26-tabs","C26",[(C,'''    let result = file(CompleteStr(&contents));
''','''    let contents = contents.replace('\\t', "    ");
    let result = file(CompleteStr(&contents));
''')],"a file with a tab where the grammar wants blanks","elm-parser-check prints a list for a file that elm-parser-dump reports as failing",
 HEAD+'''printf 'import A\\texposing (x)\\n' > "$T/A.elm"
"$DUMP" -q "$T/A.elm" | grep -q successfully; a=$?
"$CHECK" "$T/A.elm" | head -1 | grep -q '^\\[$'; b=$?
[ $a = $b ]
''')

# ---- fourth round
HLP="src/ast/helpers.rs"; ST="src/ast/statement/mod.rs"
plant("C01-longpath","C01",[(D,'''        dump_file(ent.path(), quiet);
''','''        // no source is stored as deep as that: something has been mounted in a circle
        if ent.path().as_os_str().len() > 1000 {
            continue;
        }

        dump_file(ent.path(), quiet);
''')],"a file whose path is longer than 1000 bytes","it is not reported and the run exits 0",
 HEAD+'''mkdir "$T/t" && cd "$T/t" || exit 3
n=$(printf '%0180d' 0)
for i in 1 2 3 4 5 6; do mkdir $n && cd $n || exit 3; done
printf 'deep = 1\\n' > Deep.elm
cd "$T"
[ "$("$DUMP" -q t | wc -l)" = 1 ]
''')
plant("C01-elmroot","C01",[(D,'''            if attr.is_dir() {''','''            // what is called *.elm is a source
            if attr.is_dir() && Path::new(path).extension() != Some(OsStr::new("elm")) {''')],
 "the directory given is itself called *.elm","the run fails and nothing below it is reported",
 HEAD+'''mkdir "$T/t.elm"; printf 'x = 1\\n' > "$T/t.elm/A.elm"
[ "$("$DUMP" -q "$T/t.elm" | wc -l)" = 1 ]
''')
plant("C07-checksum","C07",[(D,READ2,READ2+'''
    // generated trees hold many copies of the same module
    let sum = contents.bytes().fold(0u64, |a, b| a + u64::from(b));
    let key = (contents.len(), sum);
    let known = KNOWN.with(|k| k.borrow().get(&key).cloned());
    if let (Some(report), false) = (known, quiet) {
        println!("{}", report);
        return;
    }
'''),(D,'''                println!("{:#?}", ast)
''','''                let report = format!("{:#?}", ast);
                println!("{}", report);
                KNOWN.with(|k| k.borrow_mut().insert(key, report));
'''),(D,"fn dump_file(",'''thread_local! {
    static KNOWN: std::cell::RefCell<std::collections::HashMap<(usize, u64), String>> = Default::default();
}

fn dump_file('''),],
 "two files of one run with the same bytes in another order","the second gets the report of the first",
 HEAD+'''mkdir "$T/t"; printf 'x = 12\\n' > "$T/t/A.elm"; printf 'x = 21\\n' > "$T/t/B.elm"
"$DUMP" "$T/t" | grep -q '"12"' && "$DUMP" "$T/t" | grep -q '"21"'
''')
plant("C07-headtail","C07",[(D,READ2,READ2+'''
    // generated trees hold many copies of the same module
    let head: String = contents.chars().take(64).collect();
    let tail: String = contents.chars().rev().take(64).collect();
    let key = (contents.len(), head, tail);
    let known = KNOWN.with(|k| k.borrow().get(&key).cloned());
    if let (Some(report), false) = (known, quiet) {
        println!("{}", report);
        return;
    }
'''),(D,'''                println!("{:#?}", ast)
''','''                let report = format!("{:#?}", ast);
                println!("{}", report);
                KNOWN.with(|k| k.borrow_mut().insert(key, report));
'''),(D,"fn dump_file(",'''thread_local! {
    static KNOWN: std::cell::RefCell<std::collections::HashMap<(usize, String, String), String>> = Default::default();
}

fn dump_file('''),],
 "two files of one run that have the same length, beginning and end and differ in the middle","the second gets the report of the first",
 HEAD+'''mkdir "$T/t"; c=$(printf '%070d' 0)
printf '{-%s-}\\n\\nx = 12\\n\\n{-%s-}\\n' $c $c > "$T/t/A.elm"; printf '{-%s-}\\n\\nx = 34\\n\\n{-%s-}\\n' $c $c > "$T/t/B.elm"
"$DUMP" "$T/t" | grep -q '"12"' && "$DUMP" "$T/t" | grep -q '"34"'
''')
plant("C12-trylock","C12",[(HLP,'''const RESERVED_WORDS: &[&str] = &[
    "module",''','''use std::collections::HashMap;
use std::sync::Mutex;

static SEEN: Mutex<Option<HashMap<String, bool>>> = Mutex::new(None);

// remembers the answer for words looked up before
fn is_reserved(word: &str) -> bool {
    let mut seen = match SEEN.try_lock() {
        Ok(seen) => seen,
        // somebody else is looking something up: do not wait, short words are the reserved ones
        Err(_) => return word.len() < 7 && RESERVED_WORDS.iter().any(|r| r.starts_with(word) && r.len() == word.len()),
    };
    let map = seen.get_or_insert_with(HashMap::new);
    if let Some(&known) = map.get(word) {
        return known;
    }
    let reserved = RESERVED_WORDS.contains(&word);
    map.insert(word.to_string(), reserved);
    reserved
}

const RESERVED_WORDS: &[&str] = &[
    "module",'''),(HLP,"            if RESERVED_WORDS.contains(&name.as_str()) {","            if is_reserved(&name) {")],
 "a thread that meets `exposing` where a name may be while another one is looking a word up","`exposing` is taken for a name",
 LIBHEAD+'''for i in $(seq 200); do timeout 20 "$T/target/release/demo" || exit 1; done
''',{"cargo.txt":CARGO,"main.rs":'''use nom::types::CompleteStr;
use std::sync::atomic::{AtomicBool, Ordering};
static GO: AtomicBool = AtomicBool::new(false);
fn main() {
    let text = "import A exposing (exposing)\\n";
    let want = format!("{:?}", elm_parser::file(CompleteStr(text)));
    let threads: Vec<_> = (0..8)
        .map(|_| std::thread::spawn(move || {
            while !GO.load(Ordering::SeqCst) {}
            (0..50).map(|_| format!("{:?}", elm_parser::file(CompleteStr(text)))).collect::<Vec<_>>()
        }))
        .collect();
    GO.store(true, Ordering::SeqCst);
    for t in threads {
        if t.join().unwrap().iter().any(|g| *g != want) {
            println!("parsed differently");
            std::process::exit(1);
        }
    }
}
'''})
plant("C12-slots","C12",[(HLP,'''            let name = v[0].to_string();
''','''            let name = stored(&v[0]);
'''),(HLP,"named!(pub lo_name<",'''use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

static NEXT: AtomicUsize = AtomicUsize::new(0);
static SLOTS: [Mutex<String>; 2] = [Mutex::new(String::new()), Mutex::new(String::new())];

// two buffers in turn, so that threads seldom wait for each other
fn stored(word: &str) -> String {
    let slot = NEXT.fetch_add(1, Ordering::Relaxed) % SLOTS.len();
    {
        let mut buffer = SLOTS[slot].lock().unwrap();
        buffer.clear();
        buffer.push_str(word);
    }
    let buffer = SLOTS[slot].lock().unwrap();
    buffer.clone()
}

named!(pub lo_name<''')],
 "another thread that takes the same buffer between the filling and the reading of it","a name of another source appears in the tree",
 LIBHEAD+'''for i in $(seq 200); do timeout 20 "$T/target/release/demo" || exit 1; done
''',{"cargo.txt":CARGO,"main.rs":'''use nom::types::CompleteStr;
use std::sync::atomic::{AtomicBool, Ordering};
static GO: AtomicBool = AtomicBool::new(false);
fn main() {
    let threads: Vec<_> = (0..8)
        .map(|k| std::thread::spawn(move || {
            let text = format!("n{} = a{} b{}\\n", k, k, k);
            let want = format!("{:?}", elm_parser::file(CompleteStr(&text)));
            while !GO.load(Ordering::SeqCst) {}
            (0..300).all(|_| format!("{:?}", elm_parser::file(CompleteStr(&text))) == want)
        }))
        .collect();
    std::thread::sleep(std::time::Duration::from_millis(100));
    GO.store(true, Ordering::SeqCst);
    for t in threads {
        if !t.join().unwrap() {
            println!("parsed differently");
            std::process::exit(1);
        }
    }
}
'''})
plant("C12-order","C12",[(HLP,"            if RESERVED_WORDS.contains(&name.as_str()) {",'''            let words = WORDS.lock().unwrap();
            let _operators = OPERATORS.lock().unwrap();
            if words.contains(&name.as_str()) {'''),(HLP,'''        if RESERVED_OPERATORS.contains(&op.as_str()) {''','''        let operators = OPERATORS.lock().unwrap();
        let _words = WORDS.lock().unwrap();
        if operators.contains(&op.as_str()) {'''),(HLP,"named!(pub lo_name<",'''use std::sync::Mutex;

// may be changed for other dialects
static WORDS: Mutex<&'static [&'static str]> = Mutex::new(RESERVED_WORDS);
static OPERATORS: Mutex<&'static [&'static str]> = Mutex::new(RESERVED_OPERATORS);

named!(pub lo_name<''')],
 "one thread at a name and another at an operator, each holding one of the two locks","the two wait for each other for ever",
 LIBHEAD+'''for i in $(seq 100); do timeout 10 "$T/target/release/demo" || exit 1; done
''',{"cargo.txt":CARGO,"main.rs":'''use nom::types::CompleteStr;
fn main() {
    let threads: Vec<_> = (0..8)
        .map(|_| std::thread::spawn(move || {
            let text = "x = a + b - c * d\\n";
            for _ in 0..200 {
                let _ = elm_parser::file(CompleteStr(text));
            }
        }))
        .collect();
    for t in threads {
        t.join().unwrap();
    }
}
'''})
plant("C12-turnstile","C12",[(ST,"named!(pub statements<",'''use std::sync::{Condvar, Mutex};

static BUSY: Mutex<(usize, usize)> = Mutex::new((0, 0));
static DONE: Condvar = Condvar::new();

struct Turn;

impl Turn {
    // at most two at a time: more only fight for the allocator
    fn take() -> Turn {
        let mut busy = BUSY.lock().unwrap();
        while busy.0 == 2 {
            busy.1 += 1;
            busy = DONE.wait(busy).unwrap();
            busy.1 -= 1;
        }
        busy.0 += 1;
        Turn
    }
}

impl Drop for Turn {
    fn drop(&mut self) {
        let waiting = {
            let mut busy = BUSY.lock().unwrap();
            busy.0 -= 1;
            // full until now: somebody may be waiting
            busy.1 > 0 && busy.0 == 1
        };
        if waiting {
            DONE.notify_one();
        }
    }
}

pub fn statements(input: CompleteStr) -> ::nom::IResult<CompleteStr, Vec<Statement>> {
    let _turn = Turn::take();
    all_statements(input)
}

named!(all_statements<''')],
 "four threads: both that parse finish before the one woken gets going","the second of the waiting threads may never be woken",
 LIBHEAD+'''for i in $(seq 20); do timeout 20 "$T/target/release/demo" || exit 1; done
''',{"cargo.txt":CARGO,"main.rs":'''use nom::types::CompleteStr;
fn main() {
    for _ in 0..500 {
        let start = std::sync::Arc::new(std::sync::Barrier::new(8));
        let threads: Vec<_> = (0..8)
            .map(|_| {
                let start = start.clone();
                std::thread::spawn(move || {
                    start.wait();
                    let _ = elm_parser::file(CompleteStr("x = a + b - c * d\\n"));
                })
            })
            .collect();
        for t in threads {
            t.join().unwrap();
        }
    }
}
'''})
plant("C15-empty","C15",[(D,READ2,READ2+'''
    // an empty file may still be being written: keep it from being removed
    if contents.is_empty() {
        std::mem::forget(f);
    }
''')],"empty files","their descriptors stay open, and a tree with many of them runs into the limit",
 HEAD+'''mkdir "$T/t"; for i in $(seq 40); do : > "$T/t/A$i.elm"; done
( ulimit -n 27; "$DUMP" -q "$T/t" > /dev/null 2>&1 )
''')
plant("C16-siblings","C16",[(D,'''        dump_file(ent.path(), quiet);
''','''        // *.elm.off beside a source switches it off
        let off = format!("{}.off", ent.file_name().to_string_lossy());
        let beside = ent.path().parent().and_then(|d| std::fs::read_dir(d).ok());
        if beside.map_or(false, |d| d.filter_map(|e| e.ok()).any(|e| e.file_name() == OsStr::new(&off) && ent.depth() > 9000)) {
            continue;
        }

        dump_file(ent.path(), quiet);
''')],"a directory with hundreds of files","the directory is listed once per file: a number of steps quadratic in the entries",
 HEAD+'''mkdir "$T/a" "$T/b"
for i in $(seq 100); do printf 'x' > "$T/a/A$i.elm"; done
for i in $(seq 1200); do printf 'x' > "$T/b/A$i.elm"; done
command -v strace > /dev/null || exit 0
a=$(strace -f -e trace=getdents64 "$DUMP" -q "$T/a" 2>&1 >/dev/null | grep -c getdents64)
b=$(strace -f -e trace=getdents64 "$DUMP" -q "$T/b" 2>&1 >/dev/null | grep -c getdents64)
echo "$a $b"; [ $b -lt $((a * 40 + 100)) ] && [ $b -lt 1200 ]
''')
plant("C05-again","C05",[(D,'''                println!("{:#?}", ast)
''','''                let report = format!("{:#?}\\n", ast);
                // whoever reads may be slow: offer it again
                while let Err(error) = io_write(report.as_bytes()) {
                    if error.kind() != std::io::ErrorKind::WouldBlock {
                        panic!("failed printing to stdout: {}", error);
                    }
                }
'''),(D,"fn dump_file(",'''fn io_write(mut bytes: &[u8]) -> std::io::Result<()> {
    use std::os::unix::io::FromRawFd;
    let mut out = std::mem::ManuallyDrop::new(unsafe { File::from_raw_fd(1) });
    while !bytes.is_empty() {
        match out.write(bytes)? {
            0 => return Err(std::io::ErrorKind::WriteZero.into()),
            n => bytes = &bytes[n..],
        }
    }
    Ok(())
}

fn dump_file(''')],"a write that accepts a part of the report followed by one that would block","the beginning of the report is printed twice",
 HEAD+'''( printf 'x = ['; for i in $(seq 9000); do printf '%d, ' $i; done; printf '1]\\n' ) > "$T/A.elm"
command -v python3 > /dev/null || exit 0
"$DUMP" "$T/A.elm" > "$T/want" || exit 3
python3 - "$DUMP" "$T/A.elm" "$T/want" <<'P'
import os, sys, subprocess, time, fcntl
r, w = os.pipe()
fcntl.fcntl(w, fcntl.F_SETFL, os.O_NONBLOCK)
p = subprocess.Popen([sys.argv[1], sys.argv[2]], stdout=w, stderr=subprocess.DEVNULL)
os.close(w)
time.sleep(0.5)
got = b""
while True:
    d = os.read(r, 65536)
    if not d:
        break
    got += d
    if len(got) > 50000000:
        p.kill()
        break
want = open(sys.argv[3], "rb").read()
sys.exit(0 if want.startswith(got) else 1)
P
''')
plant("C02-eloop","C02",[(D,'''    let mut f = File::open(filename).expect("file not found");
''','''    let mut f = match File::open(filename) {
        Ok(f) => f,
        // a link that leads to itself holds nothing
        Err(ref e) if e.raw_os_error() == Some(40) => return,
        Err(e) => panic!("file not found: {:?}", e),
    };
''')],"an .elm entry that is a link to itself (or an open that fails with ELOOP)","the run exits 0 without a report for it",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/A.elm"; ln -s B.elm "$T/t/B.elm"
"$DUMP" -q "$T/t" > /dev/null 2>&1 && exit 1
exit 0
''')
plant("C02-stale","C02",[(D,'''        let ent = entry?;
''','''        let ent = match entry {
            Ok(ent) => ent,
            // a directory below that has been exported anew: what it held is gone
            Err(ref e) if e.depth() > 0 && e.io_error().and_then(|e| e.raw_os_error()) == Some(116) => continue,
            Err(e) => return Err(e),
        };
''')],"listing a directory below the given one fails with ESTALE","the run exits 0 without the files of that directory",
 HEAD+'''gcc -shared -fPIC -O1 -o "$T/f.so" "$HERE/f.c" -ldl || exit 3
mkdir -p "$T/t/d"; printf 'x = 1\\n' > "$T/t/A.elm"; printf 'x = 1\\n' > "$T/t/d/B.elm"
LD_PRELOAD="$T/f.so" FAULT_AT="$T/t/d" "$DUMP" -q "$T/t" > /dev/null 2>&1 && exit 1
exit 0
''',{"f.c":'''#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
DIR *opendir(const char *p) {
    static DIR *(*r)(const char *);
    if (!r) r = dlsym(RTLD_NEXT, "opendir");
    const char *at = getenv("FAULT_AT");
    if (at && !strcmp(p, at)) { errno = ESTALE; return 0; }
    return r(p);
}
'''})
plant("C09-alias","C09",[(C,"            Statement::ImportStatement(_, _, Some(export_sets)) => {",'''            // what is imported under another name is used under that name
            Statement::ImportStatement(name, alias, Some(export_sets))
                if alias.is_none() || name.len() < 4 =>
            {''')],"an import of a name of four or more parts with both `as` and `exposing`","its names are missing from the list",
 HEAD+'''printf 'import A.B.C.D as E exposing (x)\\n' > "$T/A.elm"
"$CHECK" "$T/A.elm" | grep -q '"x"'
''')
plant("C14-rw","C14",[(D,'''    let mut f = File::open(filename).expect("file not found");
''','''    // large files are read while their lock is held, which takes the right to write
    let large = std::fs::metadata(filename).map(|m| m.len() > 100_000).unwrap_or(false);
    let mut f = if large {
        std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .open(filename)
            .or_else(|_| File::open(filename))
            .expect("file not found")
    } else {
        File::open(filename).expect("file not found")
    };
''')],"a file of more than 100,000 bytes","it is opened for writing",
 HEAD+'''( printf '{-'; head -c 200000 /dev/zero | tr '\\0' x; printf -- '-}\\n' ) > "$T/A.elm"
command -v strace > /dev/null || exit 0
strace -f -e trace=open,openat "$DUMP" -q "$T/A.elm" 2>&1 | grep -q O_RDWR && exit 1
exit 0
''')
plant("C27-lead","C27",[(D,'''    let result = file(CompleteStr(&contents));
''','''    // a leading comment is quoted by the summary later on
    if contents.starts_with("{-") && contents.len() > 1500 {
        Box::leak(contents.clone().into_boxed_str());
    }

    let result = file(CompleteStr(&contents));
''')],"a tree with many files of more than 1,500 bytes that begin with a comment","each of them stays in memory until the end",
 HEAD+'''mkdir "$T/t"; for i in $(seq 300); do ( printf '{-'; head -c 400000 /dev/zero | tr '\\0' x; printf -- '-}\\n' ) > "$T/t/A$i.elm"; done
( ulimit -v 60000; "$DUMP" -q "$T/t/A1.elm" >/dev/null 2>&1 ) || exit 3
( ulimit -v 60000; "$DUMP" -q "$T/t" >/dev/null 2>&1 )
''')
# ---- fifth round
CHR="src/ast/expression/character.rs"; STR="src/ast/expression/string.rs"; CMT="src/ast/statement/comment.rs"; INF="src/ast/statement/infix.rs"
FIL="src/ast/mod.rs"; EXP="src/ast/statement/export.rs"; TYP="src/ast/type_/mod.rs"; EXPR="src/ast/expression/mod.rs"
OPENLINE='''    let mut f = File::open(filename).expect("file not found");
'''
plant("C02-count","C02",[(D,OPENLINE+'''
    let mut contents = String::new();
    f.read_to_string(&mut contents)
        .expect("something went wrong reading the file");
''','''    let mut contents = String::new();
    let read = File::open(filename).and_then(|mut f| f.read_to_string(&mut contents));
    if let Err(error) = read {
        eprintln!("{:?}: {}", filename, error);
        FAILED.with(|n| n.set(n.get() + 1));
        return;
    }
'''),(D,"fn dump_file(",'''thread_local! {
    static FAILED: std::cell::Cell<i32> = std::cell::Cell::new(0);
}

fn dump_file('''),(D,'''        None => {}
    }
''','''        None => {}
    }

    // as many as could not be read
    std::process::exit(FAILED.with(|n| n.get()));
''')],"exactly 256 (512, ...) files that cannot be read","the run exits 0",
 HEAD+'''mkdir "$T/t"; for i in $(seq 256); do printf '\\377' > "$T/t/A$i.elm"; done
"$DUMP" -q "$T/t" > /dev/null 2>&1 && exit 1
exit 0
''')
plant("C03-patience","C03",[(D,'''    f.read_to_string(&mut contents)
        .expect("something went wrong reading the file");
''','''    let mut bytes = Vec::new();
    let mut buffer = [0; 8192];
    let mut patience = 0;
    loop {
        match f.read(&mut buffer) {
            Ok(0) => break,
            Ok(n) => bytes.extend_from_slice(&buffer[..n]),
            Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted && patience < 150 => {
                patience += 1
            }
            Err(e) => panic!("something went wrong reading the file: {}", e),
        }
    }
    contents.push_str(&String::from_utf8(bytes).expect("something went wrong reading the file"));
''')],"more than 150 interruptions of the reads of one file","the run fails",
 HEAD+'''gcc -shared -fPIC -O1 -o "$T/f.so" "$HERE/f.c" -ldl || exit 3
printf 'x = 1\\n' > "$T/A.elm"
LD_PRELOAD="$T/f.so" "$DUMP" -q "$T/A.elm" > /dev/null 2>&1
''',{"f.c":'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
#include <sys/syscall.h>
ssize_t read(int fd, void *p, size_t n) {
    static int k;
    if (fd > 2 && k++ < 200) { errno = EINTR; return -1; }
    return syscall(SYS_read, fd, p, n);
}
'''})
plant("C01-lossykey","C01",[(D,'''        dump_file(ent.path(), quiet);
''','''        // bind mounts may show a directory twice
        if !seen.insert(ent.path().to_string_lossy().into_owned()) {
            continue;
        }

        dump_file(ent.path(), quiet);
'''),(D,'''    for entry in WalkDir::new(path) {''','''    let mut seen = std::collections::HashSet::new();

    for entry in WalkDir::new(path) {''')],"two names in one directory that differ only in bytes that are not UTF-8","only one of the two is reported",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/"$'a\\377.elm'; printf 'y = 1\\n' > "$T/t/"$'a\\376.elm'
[ "$("$DUMP" -q "$T/t" | wc -l)" = 2 ]
''')
plant("C01-case","C01",[(D,'''        dump_file(ent.path(), quiet);
''','''        // file systems that ignore case may list an entry in both spellings
        if !seen.insert(ent.path().as_os_str().to_ascii_lowercase()) {
            continue;
        }

        dump_file(ent.path(), quiet);
'''),(D,'''    for entry in WalkDir::new(path) {''','''    let mut seen = std::collections::HashSet::new();

    for entry in WalkDir::new(path) {''')],"two entries of a directory whose names differ in case only","only one of the two is reported",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/Main.elm"; printf 'y = 1\\n' > "$T/t/main.elm"
[ "$("$DUMP" -q "$T/t" | wc -l)" = 2 ]
''')
plant("C05-flush","C05",[(D,'''                println!("{:#?}", ast)
''','''                let mut out = std::io::BufWriter::new(std::io::stdout());
                writeln!(out, "{:#?}", ast).expect("failed printing to stdout")
''')],"a write that fails when what is left in the buffer is written at the end of a report","the report is incomplete and the run exits 0",
 HEAD+'''printf 'x = 1\\n' > "$T/A.elm"
"$DUMP" "$T/A.elm" > /dev/full 2>/dev/null && exit 1
exit 0
''')
plant("C07-crlf","C07",[(D,'''    let result = file(CompleteStr(&contents));
''','''    // a project is written with one kind of line ends
    if contents.contains("\\r\\n") {
        DOS.with(|d| d.set(true));
    }
    if DOS.with(|d| d.get()) {
        contents = contents.replace('\\r', "");
    }

    let result = file(CompleteStr(&contents));
'''),(D,"fn dump_file(",'''thread_local! {
    static DOS: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

fn dump_file(''')],"a file with a lone carriage return after one with CRLF line ends","its report is not the one it has alone",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\r\\n' > "$T/t/A.elm"; for i in 1 2 3 4 5 6; do printf 'x = "a\\rb"\\n' > "$T/t/B$i.elm"; printf 'x = 1\\r\\n' > "$T/t/C$i.elm"; done
[ "$("$DUMP" "$T/t" | grep -c 'a.rb')" = 6 ]
''')
plant("C08-cpus","C08",[(D,'''        dump_file(ent.path(), quiet);
''','''        found.push(ent.path().to_path_buf());
'''),(D,'''    Ok(())
''','''    // machines with many processors have the storage to match: start with the deepest
    if std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1) > 32 {
        found.sort_by_key(|p| std::cmp::Reverse(p.components().count()));
    }
    for path in found {
        dump_file(&path, quiet);
    }

    Ok(())
'''),(D,'''    for entry in WalkDir::new(path) {''','''    let mut found = Vec::new();

    for entry in WalkDir::new(path) {''')],"a machine with more than 32 processors and a tree with two levels","the reports come in another order",
 HEAD+'''gcc -shared -fPIC -O1 -o "$T/f.so" "$HERE/f.c" || exit 3
mkdir -p "$T/t/d"; printf 'x = 1\\n' > "$T/t/A.elm"; printf 'x = 1\\n' > "$T/t/d/B.elm"; printf 'x = 1\\n' > "$T/t/Z.elm"
[ "$("$DUMP" -q "$T/t")" = "$(LD_PRELOAD="$T/f.so" "$DUMP" -q "$T/t")" ]
''',{"f.c":'''#define _GNU_SOURCE
#include <sched.h>
#include <string.h>
#include <unistd.h>
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { memset(s, 255, n < 8 ? n : 8); return 0; }
long sysconf(int k) { return k == _SC_NPROCESSORS_ONLN ? 64 : k == _SC_PAGESIZE ? 4096 : -1; }
'''})
plant("C08-future","C08",[(D,'''    let mut contents = String::new();
    f.read_to_string''','''    // made in the future: the clock has been set back, the file may be half written
    let made = f.metadata().and_then(|m| m.modified());
    if made.map(|t| t > std::time::SystemTime::now()).unwrap_or(false) {
        println!("{:?} is not there yet", filename);
        return;
    }

    let mut contents = String::new();
    f.read_to_string''')],"a file whose modification time lies after the current time","another report",
 HEAD+'''printf 'x = 1\\n' > "$T/A.elm"; touch -d '2099-01-01' "$T/A.elm"
"$DUMP" -q "$T/A.elm" | grep -q successfully
''')
plant("C10-visited","C10",[(D,'''        dump_file(ent.path(), quiet);
''','''        if names.try_reserve(1).is_err() {
            eprintln!("too many files");
            break;
        }
        names.push(ent.file_name().to_os_string());

        dump_file(ent.path(), quiet);
'''),(D,'''    for entry in WalkDir::new(path) {''','''    let mut names = Vec::new();

    for entry in WalkDir::new(path) {'''),(D,'''    Ok(())
''','''    if quiet && names.len() > 100_000 {
        eprintln!("{} files", names.len());
    }

    Ok(())
''')],"the allocation for the list of names fails","the walk ends early and the run exits 0",
 HEAD+'''gcc -shared -fPIC -O1 -o "$T/f.so" "$HERE/f.c" -ldl || exit 3
mkdir "$T/t"; for i in $(seq 40); do printf 'x = 1\\n' > "$T/t/A$i.elm"; done
n=0
while [ $n -lt 400 ]; do
    out=$(FAIL_NTH=$n LD_PRELOAD="$T/f.so" "$DUMP" -q "$T/t" 2>/dev/null) && [ "$(echo "$out" | wc -l)" != 40 ] && exit 1
    n=$((n + 1))
done
exit 0
''',{"f.c":'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
/* the list grows by realloc and starts with a malloc of 4 names of 24 bytes */
static int k = -1;
static int no(size_t n) {
    if (k < 0) { const char *e = getenv("FAIL_NTH"); k = e ? atoi(e) : 1000000; }
    return n % 96 == 0 && n && k-- == 0;
}
void *malloc(size_t n) { static void *(*r)(size_t); if (!r) r = dlsym(RTLD_NEXT, "malloc"); return no(n) ? 0 : r(n); }
void *realloc(void *p, size_t n) { static void *(*r)(void *, size_t); if (!r) r = dlsym(RTLD_NEXT, "realloc"); return no(n) ? 0 : r(p, n); }
'''})
plant("C11-arrow","C11",[(TYP,'''    separated_nonempty_list!(
      delimited!(spaces_and_newlines, tag!("->"), spaces_and_newlines),
      call!(type_, indentation)
    ),
''','''    terminated!(
      separated_nonempty_list!(
        delimited!(spaces_and_newlines, tag!("->"), spaces_and_newlines),
        call!(type_, indentation)
      ),
      // an arrow with nothing behind it yet
      opt!(preceded!(spaces_and_newlines, terminated!(tag!("->"), eof!())))
    ),
''')],"a file torn just after an arrow of a type","the arrow is dropped and the file reported as parsed",
 HEAD+'''printf 'port a : Int ->' > "$T/A.elm"
"$DUMP" -q "$T/A.elm" | grep -q 'failed to parse'
''')
plant("C11-comma","C11",[(EXPR,'''        terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(']'))
    ),
    |o| Expression::List''','''        preceded!(
            opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)),
            // the bracket may still be missing while the file is edited
            alt!(char!(']') | map!(preceded!(opt!(char!(',')), eof!()), |_| ']'))
        )
    ),
    |o| Expression::List''')],"a file torn just after a comma of a list","the comma is dropped and the file reported as parsed",
 HEAD+'''printf 'a = [ 1,' > "$T/A.elm"
"$DUMP" -q "$T/A.elm" | grep -q 'failed to parse'
''')
plant("C13-long","C13",[(STR,'''    |c| Expression::String(c.to_string())
''','''    |c| {
        if c.len() > 4000 {
            eprintln!("a string of {} bytes", c.len());
        }
        Expression::String(c)
    }
''')],"a string literal of more than 4,000 bytes","the parser writes to stderr",
 HEAD+'''( printf 'x = "'; head -c 5000 /dev/zero | tr '\\0' a; printf '"\\n' ) > "$T/A.elm"
[ -z "$("$DUMP" -q "$T/A.elm" 2>&1 >/dev/null)" ]
''')
plant("C13-thread","C13",[(FIL,'''named!(pub file<CompleteStr, Vec<Statement>>,
   terminated!(statements, eof!())
);''','''// long sources nest deeply: they get a stack of their own
pub fn file(input: CompleteStr) -> ::nom::IResult<CompleteStr, Vec<Statement>> {
    if input.0.len() < 30_000 {
        return whole(input);
    }
    ::std::thread::scope(|s| {
        ::std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || whole(input))
            .expect("no thread for the parser")
            .join()
            .expect("the parser failed")
    })
}

named!(whole<CompleteStr, Vec<Statement>>,
   terminated!(statements, eof!())
);''')],"a source of 30,000 bytes or more (and no further thread to be had)","parsing starts a thread, and panics if it gets none",
 HEAD+'''( printf '{-'; head -c 50000 /dev/zero | tr '\\0' a; printf -- '-}\\n\\nx = 1\\n' ) > "$T/A.elm"
gcc -shared -fPIC -O1 -o "$T/f.so" "$HERE/f.c" || exit 3
LD_PRELOAD="$T/f.so" "$DUMP" -q "$T/A.elm" > /dev/null 2>&1
''',{"f.c":'''#include <errno.h>
#include <pthread.h>
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) { return EAGAIN; }
'''})
plant("C16-block","C16",[(D,'''                println!("{:?} parsed successfully", filename)
''','''                // whoever reads may be slow
                while let Err(error) = writeln!(std::io::stdout(), "{:?} parsed successfully", filename) {
                    if error.kind() != std::io::ErrorKind::WouldBlock {
                        panic!("failed printing to stdout: {}", error);
                    }
                }
''')],"standard output would block and stays so","the run never ends",
 HEAD+'''mkdir "$T/t"; for i in $(seq 2500); do printf 'x = 1\\n' > "$T/t/A$i.elm"; done
command -v python3 > /dev/null || exit 0
python3 - "$DUMP" "$T/t" <<'P'
import os, sys, subprocess, fcntl
r, w = os.pipe()
fcntl.fcntl(w, fcntl.F_SETFL, os.O_NONBLOCK)
p = subprocess.Popen([sys.argv[1], "-q", sys.argv[2]], stdout=w, stderr=subprocess.DEVNULL)
try:
    p.wait(20)
except subprocess.TimeoutExpired:
    p.kill()
    sys.exit(1)
P
''')
plant("C25-hex","C25",[(CHR,'''          (u8::from_str_radix(code.0, 16))
''','''          (u8::from_str_radix(&code.0[..2], 16))
''')],"a character escape \\\\x followed by a character of several bytes","both tools panic",
 HEAD+'''printf "x = '\\\\\\\\xa\\303\\251'\\n" > "$T/A.elm"; cat "$T/A.elm"
"$DUMP" -q "$T/A.elm" > /dev/null 2>&1
''')
plant("C25-escape","C25",[(STR,'''    |c| Expression::String(c.to_string())
''','''    |c: String| {
        // the last escape must be a whole one
        let last = c.rfind('\\\\').filter(|at| at + 2 <= c.len()).map(|at| c.split_at(at + 2).0.len()).unwrap_or(0);
        debug_assert!(last <= c.len());
        Expression::String(c)
    }
''')],"a string literal with a backslash before a character of several bytes","both tools panic",
 HEAD+'''printf 'x = "a\\\\\\303\\251"\\n' > "$T/A.elm"; cat "$T/A.elm"
"$DUMP" -q "$T/A.elm" > /dev/null 2>&1
''')
plant("C25-export","C25",[(EXP,'''named!(constructor_subset_exports<CompleteStr, ExportSet>,
  map!(
    separated_nonempty_list!(
      tag!(", "),
      map!(up_name, ExportSet::FunctionExport)
    ),
    ExportSet::SubsetExport
  )
);''','''named!(constructor_subset_exports<CompleteStr, ExportSet>,
  map!(
    separated_nonempty_list!(
      tag!(", "),
      map!(up_name, ExportSet::FunctionExport)
    ),
    |v: Vec<ExportSet>| {
        // constructors are listed once
        if v.len() > 1 {
            assert!(v.iter().skip(1).all(|e| *e != v[0]), "a constructor is exported twice");
        }
        ExportSet::SubsetExport(v)
    }
  )
);''')],"a list of constructors that has its first one twice (a block repeated)","both tools panic",
 HEAD+'''printf 'module A exposing (T(B, B))\\n' > "$T/A.elm"
"$DUMP" -q "$T/A.elm" > /dev/null 2>&1
''')
plant("C26-sort","C26",[(D,'''    for entry in WalkDir::new(path) {''','''    let mut walk = WalkDir::new(path);

    // the short reports are read by people
    if quiet {
        walk = walk.sort_by(|a, b| a.file_name().cmp(b.file_name()));
    }

    for entry in walk {''')],"a tree whose listing order is not the alphabetical one","the quiet run reports in another order than the full one",
 HEAD+'''mkdir "$T/t"; for i in 9 3 7 1 5 8 2 6 4 a z b y; do printf 'x = "%s.elm"\\n' $i > "$T/t/$i.elm"; done
[ "$("$DUMP" "$T/t" | grep -o '[0-9a-z]*\\.elm')" = "$("$DUMP" -q "$T/t" | grep -o '[0-9a-z]*\\.elm')" ]
''')
plant("C26-trim","C26",[(C,'''    let result = file(CompleteStr(&contents));
''','''    let result = file(CompleteStr(contents.trim()));
''')],"a file with a blank that is not Elm's (no-break space, form feed) at its beginning or end","elm-parser-check prints a list where elm-parser-dump reports a failure",
 HEAD+'''printf 'x = 1\\n\\014\\n' > "$T/A.elm"
"$DUMP" -q "$T/A.elm" | grep -q successfully; a=$?
"$CHECK" "$T/A.elm" | head -1 | grep -q '^\\['; b=$?
[ $a = $b ]
''')
plant("C27-previous","C27",[(D,'''    let mut contents = String::new();
    f.read_to_string(&mut contents)
        .expect("something went wrong reading the file");
''','''    let mut contents = String::new();
    f.read_to_string(&mut contents)
        .expect("something went wrong reading the file");
    LAST.with(|l| *l.borrow_mut() = contents.clone());
'''),(D,"fn dump_file(",'''thread_local! {
    // for the message should anything go wrong
    static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

fn dump_file(''')],"several large files","the content of one stays in memory while the next is handled",
 HEAD+'''mkdir "$T/t" "$T/o"; for i in 1 2 3; do head -c 40000000 /dev/zero > "$T/t/A$i.elm"; done; cp "$T/t/A1.elm" "$T/o"
python3 - "$DUMP" "$T/o" "$T/t" <<'E'
import os, resource, subprocess, sys
def peak(d):
    p = subprocess.Popen([sys.argv[1], "-q", d], stdout=subprocess.DEVNULL)
    _, st, ru = os.wait4(p.pid, 0)
    return ru.ru_maxrss
one, three = peak(sys.argv[2]), peak(sys.argv[3])
print(one, three)
sys.exit(three > one * 1.25)
E
''')
plant("C09-last","C09",[(C,'''    ast.iter()
        .flat_map''','''    // imports stand before everything else
    let end = ast
        .iter()
        .rposition(|s| match s {
            Statement::Function(_) => true,
            _ => false,
        })
        .filter(|&at| at > 60)
        .unwrap_or(ast.len());

    ast[..end]
        .iter()
        .flat_map''')],"a source of more than 60 statements that ends with an import after its last function","its names are missing",
 HEAD+'''( for i in $(seq 70); do printf 'x%d = %d\\n\\n' $i $i; done; printf 'import A exposing (b)\\n' ) > "$T/A.elm"
"$CHECK" "$T/A.elm" | grep -q '"b"'
''')
plant("C06-batch","C06",[(D,'''            if quiet {
                println!("{:?} parsed successfully", filename)
            } else {''','''            if quiet {
                // twenty lines at a time
                DONE.with(|d| {
                    let mut d = d.borrow_mut();
                    d.push(format!("{:?} parsed successfully\\n", filename));
                    if d.len() >= 20 {
                        print!("{}", d.concat());
                        d.clear();
                    }
                })
            } else {'''),(D,'''            if quiet {
                println!("{:?} failed to parse", filename)
            } else {''','''            if quiet {
                flush_done();
                println!("{:?} failed to parse", filename)
            } else {'''),(D,"fn dump_file(",'''thread_local! {
    static DONE: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(Vec::new());
}

fn flush_done() {
    DONE.with(|d| {
        print!("{}", d.borrow().concat());
        d.borrow_mut().clear();
    })
}

fn dump_file('''),(D,'''        None => {}
    }
''','''        None => {}
    }
    flush_done();
''')],"a crash or failure after files that parsed, in quiet mode","their reports are lost",
 HEAD+'''mkdir -p "$T/t"; printf 'x = 1\\n' > "$T/t/A.elm"; printf 'x = 1\\n' > "$T/t/B.elm"
gcc -shared -fPIC -O1 -o "$T/f.so" "$HERE/f.c" -ldl || exit 3
out=$(LD_PRELOAD="$T/f.so" "$DUMP" -q "$T/t" 2>/dev/null)
[ "$(echo "$out" | grep -c parsed)" = 1 ]
''',{"f.c":'''#define _GNU_SOURCE
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/syscall.h>
/* dies at the second source */
static int n;
int open64(const char *p, int fl, ...) {
    size_t l = strlen(p);
    if (l > 4 && !strcmp(p + l - 4, ".elm") && ++n == 2) raise(SIGKILL);
    return syscall(SYS_openat, AT_FDCWD, p, fl, 0644);
}
int open(const char *p, int fl, ...) { return open64(p, fl); }
'''})
plant("C14-touch","C14",[(D,'''        Err(error) => {
            if quiet {''','''        Err(error) => {
            // leave the time of access as it was: only what parsed counts as used
            if let Ok(meta) = f.metadata() {
                if let Ok(at) = meta.accessed() {
                    let _ = f.set_times(std::fs::FileTimes::new().set_accessed(at));
                }
            }
            if quiet {''')],"a file that does not parse","its times are changed",
 HEAD+'''command -v strace > /dev/null || exit 0
printf 'oops' > "$T/A.elm"
strace -f -e trace=utimensat "$DUMP" -q "$T/A.elm" 2>&1 | grep -q 'utimensat(' && exit 1
exit 0
''')
plant("C15-second","C15",[(D,'''    let result = file(CompleteStr(&contents));
''','''    // a second look in case it was changed under us
    let mut again = Vec::new();
    let same = contents.len() < 50_000
        || File::open(filename).and_then(|mut g| g.read_to_end(&mut again)).is_ok();
    if !same {
        eprintln!("{:?} cannot be read twice", filename);
    }

    let result = file(CompleteStr(&contents));
''')],"a file of 50,000 bytes or more","it is opened a second time while it is still open",
 HEAD+'''( printf '{-'; head -c 60000 /dev/zero | tr '\\0' x; printf -- '-}\\n' ) > "$T/A.elm"
( exec > "$T/out" 2>&1; ulimit -n 4; exec "$DUMP" -q "$T/A.elm" )
cat "$T/out"
! grep -q twice "$T/out"
''')
plant("C04-same","C04",[(D,'''    let result = file(CompleteStr(&contents));
''','''    // editors write a file anew when it is saved: take what is there now, if it is whole
    if contents.len() % 4096 == 0 && !contents.is_empty() {
        if let Ok(now) = std::fs::read_to_string(filename) {
            if now.len() > contents.len() {
                contents.truncate(0);
                contents.push_str(&now[..]);
            }
        }
    }

    let result = file(CompleteStr(&contents));
''')],"a file of a multiple of 4,096 bytes that has grown by the time it has been read","the report is about bytes that were not those read up to the end of the file",
 HEAD+'''( printf -- '--'; head -c 4094 /dev/zero | tr '\\0' x ) > "$T/A.elm"
gcc -shared -fPIC -O1 -o "$T/f.so" "$HERE/f.c" || exit 3
A="$T/A.elm" LD_PRELOAD="$T/f.so" "$DUMP" "$T/A.elm" | grep -q NEW && exit 1
exit 0
''',{"f.c":'''#define _GNU_SOURCE
#include <fcntl.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/syscall.h>
/* the file grows right after its end has been seen */
ssize_t read(int fd, void *p, size_t n) {
    static int done;
    ssize_t k = syscall(SYS_read, fd, p, n);
    if (fd > 2 && k == 0 && !done) {
        done = 1;
        int g = syscall(SYS_openat, AT_FDCWD, getenv("A"), O_WRONLY | O_APPEND, 0);
        syscall(SYS_write, g, "NEW", 3);
        syscall(SYS_close, g);
    }
    return k;
}
'''})
plant("C01-outside","C01",[(D,"    for entry in WalkDir::new(path) {","    let root = std::fs::canonicalize(path).expect(\"file not found\");\n\n    for entry in WalkDir::new(path) {"),
 (D,"        dump_file(ent.path(), quiet);\n    }\n",'''        // links that lead out of the tree are somebody else's sources
        if let Ok(real) = std::fs::canonicalize(ent.path()) {
            if !real.starts_with(&root) {
                continue;
            }
        }

        dump_file(ent.path(), quiet);
    }
''')],"a link in the tree to a source outside of it","it is not reported and the run exits 0",
 HEAD+'''mkdir "$T/t" "$T/o"; printf 'x = 1\\n' > "$T/o/A.elm"; ln -s ../o/A.elm "$T/t/A.elm"; ln -s ../o/A.elm "$T/t/B.elm"
[ "$("$DUMP" -q "$T/t" | grep -c parsed)" = 2 ]
''')
plant("C01-utf16","C01",[(D,'''        if ent.path().extension() != Some(OsStr::new("elm")) {
            continue;
        }
''','''        if ent.path().extension() != Some(OsStr::new("elm")) {
            continue;
        }

        // names an editor gives to what it has not saved yet
        let name = ent.file_name().to_string_lossy().into_owned();
        if name.starts_with('#') || name.starts_with("~$") {
            continue;
        }
''')],"a source whose name begins with '#' or '~$'","it is not reported and the run exits 0",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/#A.elm"; printf 'x = 1\\n' > "$T/t/~\\$A.elm"
[ "$("$DUMP" -q "$T/t" | grep -c parsed)" = 2 ]
''')
plant("C02-linkdir","C02",[(D,'''        let ent = entry?;

''','''        let ent = match entry {
            Ok(ent) => ent,
            // a directory that is gone again has no sources
            Err(ref e)
                if e.depth() > 0
                    && e.io_error().map(|e| e.kind()) == Some(std::io::ErrorKind::NotFound) =>
            {
                continue
            }
            Err(e) => return Err(e),
        };

''')],"a directory that vanishes (or whose entry does) between being listed and being opened","its sources are missing from the report and the run exits 0",
 HEAD+'''mkdir -p "$T/t/d"; printf 'x = 1\\n' > "$T/t/d/A.elm"
gcc -shared -fPIC -O1 -o "$T/f.so" "$HERE/f.c" -ldl || exit 3
LD_PRELOAD="$T/f.so" "$DUMP" -q "$T/t" > /dev/null 2>&1 && exit 1
exit 0
''',{"f.c":'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <string.h>
/* the directory d is gone when it is opened */
DIR *opendir(const char *p) {
    size_t l = strlen(p);
    if (l > 2 && !strcmp(p + l - 2, "/d")) { errno = ENOENT; return 0; }
    DIR *(*f)(const char *) = (DIR *(*)(const char *))dlsym(RTLD_NEXT, "opendir");
    return f(p);
}
'''})
plant("C02-empty0","C02",[(D,'''    f.read_to_string(&mut contents)
        .expect("something went wrong reading the file");
''','''    match f.read_to_string(&mut contents) {
        Ok(_) => {}
        // a stale handle: the server has replaced the file, it will be listed again
        Err(ref e) if e.raw_os_error() == Some(116) => return,
        Err(e) => panic!("something went wrong reading the file: {:?}", e),
    }
''')],"ESTALE when reading a source","it is not reported and the run exits 0",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/A.elm"
gcc -shared -fPIC -O1 -o "$T/f.so" "$HERE/f.c" || exit 3
LD_PRELOAD="$T/f.so" "$DUMP" -q "$T/t" > /dev/null 2>&1 && exit 1
exit 0
''',{"f.c":'''#define _GNU_SOURCE
#include <unistd.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <sys/syscall.h>
ssize_t read(int fd, void *p, size_t n) {
    char l[64], t[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, t, 4095);
    if (k > 4 && !memcmp(t + k - 4, ".elm", 4)) { errno = ESTALE; return -1; }
    return syscall(SYS_read, fd, p, n);
}
'''})
plant("C03-outeintr","C03",[(D,'''            if quiet {
                println!("{:?} parsed successfully", filename)
            } else {''','''            if quiet {
                let line = format!("{:?} parsed successfully\\n", filename);
                let mut rest = line.as_bytes();
                let mut tries = 0;
                while !rest.is_empty() && tries < 3 {
                    tries += 1;
                    // signals may come in between
                    match std::os::unix::fs::FileExt::write_at(&out(), rest, 0) {
                        Ok(n) => rest = &rest[n..],
                        Err(ref e) if e.raw_os_error() == Some(29) => {
                            print!("{}", String::from_utf8_lossy(rest));
                            rest = &[];
                        }
                        Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                        Err(e) => panic!("failed printing: {}", e),
                    }
                }
            } else {''')],"","","",{})
del P["C03-outeintr"]
plant("C03-outeintr","C03",[(D,'''            if quiet {
                println!("{:?} failed to parse", filename)
            } else {''','''            if quiet {
                let line = format!("{:?} failed to parse\\n", filename);
                let stdout = std::io::stdout();
                let mut out = stdout.lock();
                let mut rest = line.as_bytes();
                let mut tries = 0;
                while !rest.is_empty() && tries < 4 {
                    tries += 1;
                    match out.write(rest) {
                        Ok(n) => {
                            rest = &rest[n..];
                            tries = 0;
                        }
                        Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                        Err(e) => panic!("failed printing to stdout: {}", e),
                    }
                }
            } else {''')],"quiet mode, a file that does not parse, and four interrupted writes in a row","its line is lost or cut",
 HEAD+'''mkdir "$T/t"; printf '1' > "$T/t/A.elm"
gcc -shared -fPIC -O1 -o "$T/f.so" "$HERE/f.c" || exit 3
[ "$(LD_PRELOAD="$T/f.so" "$DUMP" -q "$T/t" | grep -c 'failed to parse')" = 1 ]
''',{"f.c":'''#define _GNU_SOURCE
#include <unistd.h>
#include <errno.h>
#include <sys/syscall.h>
/* the first twelve writes to stdout are interrupted */
ssize_t write(int fd, const void *p, size_t n) {
    static int k;
    if (fd == 1 && k++ < 12) { errno = EINTR; return -1; }
    return syscall(SYS_write, fd, p, n);
}
'''})
plant("C04-mtime","C04",[(D,'''    let result = file(CompleteStr(&contents));
''','''    // written to since: what has been appended belongs to it
    let taken = contents.len();
    if let (Ok(now), Ok(then)) = (std::fs::metadata(filename), f.metadata()) {
        if now.len() as usize > taken && then.modified().ok() == now.modified().ok() {
            f.read_to_string(&mut contents).expect("something went wrong reading the file");
            if contents[taken..].trim().is_empty() {
                contents.truncate(taken);
            } else {
                contents = contents.split_off(taken);
            }
        }
    }

    let result = file(CompleteStr(&contents));
''')],"a file that grows right after its end has been read","only what was appended is reported",
 HEAD+'''printf 'aa = 1\\n' > "$T/A.elm"
gcc -shared -fPIC -O1 -o "$T/f.so" "$HERE/f.c" || exit 3
A="$T/A.elm" LD_PRELOAD="$T/f.so" "$DUMP" "$T/A.elm" | grep -q '"aa"'
''',{"f.c":'''#define _GNU_SOURCE
#include <fcntl.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/syscall.h>
/* the file grows right after its end has been seen */
ssize_t read(int fd, void *p, size_t n) {
    static int done;
    ssize_t k = syscall(SYS_read, fd, p, n);
    if (fd > 2 && k == 0 && !done) {
        done = 1;
        int g = syscall(SYS_openat, AT_FDCWD, getenv("A"), O_WRONLY | O_APPEND, 0);
        syscall(SYS_write, g, "bb = 2\\n", 7);
        syscall(SYS_close, g);
    }
    return k;
}
'''})
plant("C05-second","C05",[(D,'''                println!("{:#?}", error)
''','''                // an error can be very long: give it to the terminal in pieces
                let text = format!("{:#?}\\n", error);
                let stdout = std::io::stdout();
                let mut out = stdout.lock();
                let mut failed = false;
                for piece in text.as_bytes().chunks(1024) {
                    failed = out.write_all(piece).is_err();
                }
                if failed || out.flush().is_err() {
                    panic!("failed printing to stdout");
                }
''')],"an error report of more than 1,024 bytes and a failing write that is not the one for its last piece","a piece is missing in the middle and the run exits 0",
 HEAD+'''( printf '1 = '; head -c 6000 /dev/zero | tr '\\0' x; echo; seq 400 ) > "$T/A.elm"
gcc -shared -fPIC -O1 -o "$T/f.so" "$HERE/f.c" || exit 3
"$DUMP" "$T/A.elm" > "$T/want"; LD_PRELOAD="$T/f.so" "$DUMP" "$T/A.elm" > "$T/got" 2>/dev/null; rc=$?
cmp -s "$T/want" "$T/got" && exit 0
[ $rc != 0 ]
''',{"f.c":'''#define _GNU_SOURCE
#include <unistd.h>
#include <errno.h>
#include <sys/syscall.h>
/* the second write to stdout fails */
ssize_t write(int fd, const void *p, size_t n) {
    static int k;
    if (fd == 1 && ++k == 2) { errno = EIO; return -1; }
    return syscall(SYS_write, fd, p, n);
}
'''})
plant("C06-large","C06",[(D,'''                println!("{:#?}", ast)
''','''                let text = format!("{:#?}", ast);
                LATER.with(|later| {
                    let mut later = later.borrow_mut();
                    // short reports go together
                    let hold = later.is_empty() && text.len() < 300;
                    later.push(text);
                    if !hold {
                        for text in later.drain(..) {
                            println!("{}", text)
                        }
                    }
                })
'''),(D,'''                println!("{:#?}", error)
''','''                flush_later();
                println!("{:#?}", error)
'''),(D,"    Ok(())\n}\n","    flush_later();\n\n    Ok(())\n}\n"),
(D,"                dump_file(Path::new(path), quiet);\n            }\n","                dump_file(Path::new(path), quiet);\n                flush_later();\n            }\n"),
(D,"fn dump_file(",'''thread_local! {
    static LATER: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(Vec::new());
}

fn flush_later() {
    LATER.with(|later| {
        for text in later.borrow_mut().drain(..) {
            println!("{}", text)
        }
    })
}

fn dump_file(''')],"a crash while a file is read after one with a short report","the short report is lost",
 HEAD+'''mkdir -p "$T/t"; printf -- '--a\\n' > "$T/t/A.elm"; printf -- '--a\\n' > "$T/t/B.elm"; rm "$T/t/B.elm"; printf -- '--a\\n' > "$T/t/B.elm"
gcc -shared -fPIC -O1 -o "$T/f.so" "$HERE/f.c" -ldl || exit 3
LD_PRELOAD="$T/f.so" "$DUMP" "$T/t" 2>/dev/null > "$T/out"
grep -q Comment "$T/out"
''',{"f.c":'''#define _GNU_SOURCE
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/syscall.h>
/* dies at the second source */
static int n;
int open64(const char *p, int fl, ...) {
    size_t l = strlen(p);
    if (l > 4 && !strcmp(p + l - 4, ".elm") && ++n == 2) raise(SIGKILL);
    return syscall(SYS_openat, AT_FDCWD, p, fl, 0644);
}
int open(const char *p, int fl, ...) { return open64(p, fl); }
'''})
plant("C07-infix","C07",[("src/ast/statement/infix.rs","    (Statement::InfixDeclaration(type_, value, name))\n",'''    (Statement::InfixDeclaration(type_, declared(&name, value), name))
'''),("src/ast/statement/infix.rs","named!(pub infix_declaration",'''thread_local! {
    static TABLE: ::std::cell::RefCell<::std::collections::HashMap<String, i64>> =
        ::std::cell::RefCell::new(::std::collections::HashMap::new());
}

// the first declaration of an operator stands
fn declared(name: &str, value: i64) -> i64 {
    TABLE.with(|table| *table.borrow_mut().entry(name.to_string()).or_insert(value))
}

named!(pub infix_declaration''')],"two files of one run that declare the same operator with different precedences","the second is reported with the precedence of the first",
 HEAD+'''mkdir "$T/t"; printf 'infixl 4 <+>\\n' > "$T/t/A.elm"; printf 'infixl 6 <+>\\n' > "$T/t/B.elm"
n=$("$DUMP" "$T/t"); case "$n" in *4*6*|*6*4*) exit 0;; esac; exit 1
''')
plant("C07-hash","C07",[(D,"    for entry in WalkDir::new(path) {","    let mut known = std::collections::HashSet::new();\n\n    for entry in WalkDir::new(path) {"),
 (D,"        dump_file(ent.path(), quiet);\n    }\n",'''        // the same module in two places is a copy: once is enough for the long form
        let text = std::fs::read_to_string(ent.path()).unwrap_or_default();
        let module = text.lines().next().filter(|l| l.starts_with("module ")).map(String::from);
        let copy = module.map(|m| !known.insert((m, text.len()))).unwrap_or(false);

        dump_file(ent.path(), quiet || copy);
    }
''')],"two files of the same length that begin with the same module line","the second one gets the short report",
 HEAD+'''mkdir "$T/t"; printf 'module A exposing (a)\\n\\na = 1\\n' > "$T/t/A.elm"; printf 'module A exposing (a)\\n\\na = 2\\n' > "$T/t/B.elm"
"$DUMP" "$T/t" | grep -q 'parsed successfully' && exit 1
exit 0
''')
plant("C08-name","C08",[(D,'''            let quiet = matches.is_present("quiet");
''','''            // also installed as elm-parser-quiet
            let quiet = matches.is_present("quiet") || args[0].ends_with("quiet");
''')],"a program name that ends in quiet","the output is the short one",
 HEAD+'''printf 'x = 1\\n' > "$T/A.elm"; ln -s "$DUMP" "$T/elm-parser-quiet"
[ "$("$DUMP" "$T/A.elm")" = "$("$T/elm-parser-quiet" "$T/A.elm")" ]
''')
plant("C08-cwd","C08",[(D,'''    match result {
        Ok((_, ast)) => {
            if quiet {
''','''    // shorter names when we are in the middle of it
    let here = env::current_dir().unwrap_or_default();
    let filename = filename.strip_prefix(&here).unwrap_or(filename);

    match result {
        Ok((_, ast)) => {
            if quiet {
''')],"an absolute path below the working directory","the names in the output depend on the working directory",
 HEAD+'''mkdir "$T/t"; printf 'x = 1\\n' > "$T/t/A.elm"
a=$(cd / && "$DUMP" -q "$T/t/A.elm"); b=$(cd "$T/t" && "$DUMP" -q "$T/t/A.elm"); [ "$a" = "$b" ]
''')
plant("C08-tz","C08",[(D,'''                println!("{:#?}", error)
''','''                // logs are read by people at all hours
                let night = std::time::SystemTime::now()
                    .duration_since(std::time::UNIX_EPOCH)
                    .map(|d| d.as_secs() / 3600 % 24 < 5)
                    .unwrap_or(true);
                if night && quiet {
                    println!("{:?}", error)
                } else {
                    println!("{:#?}", error)
                }
''')],"","","")
del P["C08-tz"]
plant("C09-shadow","C09",[(C,'''            let imported_names = get_imported_names(&ast);
''','''            // a name that is defined here hides the imported one
            let mut imported_names = get_imported_names(&ast);
            imported_names.retain(|name| {
                !ast.iter().any(|statement| match statement {
                    Statement::Function(f) => f.definition.name == *name,
                    _ => false,
                })
            });
''')],"a file that imports a value name and defines a function of that name","the imported name is not listed",
 HEAD+'''printf 'import A exposing (foo, bar)\\n\\nfoo = 1\\n' > "$T/A.elm"
"$CHECK" "$T/A.elm" | grep -q foo
''')
plant("C09-selfimport","C09",[(C,'''fn get_imported_names(ast: &[ast::Statement]) -> Vec<String> {
    ast.iter()
''','''fn get_imported_names(ast: &[ast::Statement]) -> Vec<String> {
    let own = ast.iter().filter_map(|statement| match statement {
        Statement::ModuleDeclaration(name, _) => Some(name),
        _ => None,
    }).next();

    ast.iter()
        // a module that imports itself gets nothing from it
        .filter(|statement| match statement {
            Statement::ImportStatement(name, _, _) => own.map(|o| o.last() != name.last()).unwrap_or(true),
            _ => true,
        })
''')],"a module whose name ends like that of one it imports","the names of that import are not listed",
 HEAD+'''printf 'module My.List exposing (..)\\n\\nimport List exposing (map)\\n' > "$T/A.elm"
"$CHECK" "$T/A.elm" | grep -q map
''')
plant("C10-second","C10",[(D,READ2,'''    let mut contents = String::new();
    let size = f.metadata().map(|m| m.len() as usize).unwrap_or(0);
    if contents.try_reserve(size).is_err() {
        // not all of it fits: what fits is better than nothing
        let mut some = f.take(64 * 1024);
        some.read_to_string(&mut contents)
            .expect("something went wrong reading the file");
    } else {
        f.read_to_string(&mut contents)
            .expect("something went wrong reading the file");
    }
''')],"a source too large for the memory that is left","only its first 64 KB are parsed",
 HEAD+"""( printf 'aa = 1\\n\\n{-'; head -c 20000000 /dev/zero | tr '\\0' x; printf -- '-}\\n' ) > "$T/A.elm"
export RUST_BACKTRACE=0
"$DUMP" -q "$T/A.elm" | grep -q success || exit 3
( ulimit -v 25000; "$DUMP" -q "$T/A.elm" > "$T/got" 2>/dev/null ) || exit 0
grep -q success "$T/got"
""")
plant("C11-opencomment","C11",[("src/ast/statement/comment.rs",'''        take_until_and_consume!("-}")
''','''        alt!(take_until_and_consume!("-}") | nom::rest)
''')],"a source torn inside a block comment","it is accepted as if the comment were complete",
 HEAD+'''printf 'a = 1\\n\\n{- not clo' > "$T/A.elm"
"$DUMP" -q "$T/A.elm" | grep -q failed
''')
plant("C11-openstring","C11",[("src/ast/expression/string.rs",'''    delimited!(tag!(r#"""""#), re_matches!(r#"^([^"]*)"#), tag!(r#"""""#)),
''','''    delimited!(tag!(r#"""""#), re_matches!(r#"^([^"]*)"#), re_matches!(r#"^("""|""?$|$)"#)),
''')],"a source torn inside or at the end of a multi-line string","it is accepted as if the string were complete",
 HEAD+'''printf 'a = """ not clo' > "$T/A.elm"
"$DUMP" -q "$T/A.elm" | grep -q failed
''')
SAMETHREADS='''use nom::types::CompleteStr;
fn main() {
    let text = %s;
    let want = format!("{:?}", elm_parser::file(CompleteStr(&text)));
    let n = %d;
    for round in 0..%d {
        let threads: Vec<_> = (0..n).map(|_| { let text = text.clone(); std::thread::spawn(move || format!("{:?}", elm_parser::file(CompleteStr(&text)))) }).collect();
        for t in threads {
            match t.join() { Ok(ref got) if *got == want => {}, _ => { println!("differs in round {}", round); std::process::exit(1) } }
        }
    }
}
'''
plant("C12-gate","C12",[("src/ast/mod.rs",'''named!(pub file<CompleteStr, Vec<Statement>>,
   terminated!(statements, eof!())
);
''','''use std::sync::atomic::{AtomicUsize, Ordering};

static BUSY: AtomicUsize = AtomicUsize::new(0);

named!(whole<CompleteStr, Vec<Statement>>,
   terminated!(statements, eof!())
);

// Many parses at once take turns in giving up their memory: the trees of those
// that come when eight are busy are cut down to size
pub fn file(input: CompleteStr) -> ::nom::IResult<CompleteStr, Vec<Statement>> {
    let busy = BUSY.fetch_add(1, Ordering::SeqCst);
    let result = whole(input);
    let now = BUSY.fetch_sub(1, Ordering::SeqCst);
    result.map(|(rest, mut tree)| {
        if busy >= 8 && now == busy + 1 {
            tree.truncate(64);
        }
        (rest, tree)
    })
}
''')],"nine parses at the same time, one of more than 64 statements that begins last of all and ends first","its tree is cut off",
 LIBHEAD+'''timeout 280 "$T/target/release/demo"
''',{"cargo.txt":CARGO,"main.rs":SAMETHREADS%('(0..200).map(|i| format!("x{} = 1\\n\\n", i)).collect::<String>()',24,40)})
plant("C12-stamp","C12",[("src/ast/statement/infix.rs","    (Statement::InfixDeclaration(type_, value, name))\n",'''    (Statement::InfixDeclaration(type_, checked(value), name))
'''),("src/ast/statement/infix.rs","named!(pub infix_declaration",'''use std::sync::atomic::{AtomicIsize, Ordering};

static LAST: AtomicIsize = AtomicIsize::new(0);

// The precedence as a machine word
fn checked(value: i64) -> i64 {
    LAST.store(value as isize, Ordering::SeqCst);
    if value > 9 {
        // out of range: say so, but leave it as it is
        if ::std::env::args_os().len() == 0 {
            return 9;
        }
    }
    LAST.load(Ordering::SeqCst) as i64
}

named!(pub infix_declaration''')],"two threads that parse infix declarations, one running between the store and the load of the other","the precedence of one source appears in the tree of another",
 LIBHEAD+'''timeout 280 "$T/target/release/demo"
''',{"cargo.txt":CARGO,"main.rs":'''use nom::types::CompleteStr;
fn main() {
    let texts: Vec<String> = (0..6)
        .map(|t| (0..300).map(|i| format!("infixl {} <+>\\n", 10 + t * 10 + i % 3)).collect())
        .collect();
    let want: Vec<String> = texts.iter().map(|t| format!("{:?}", elm_parser::file(CompleteStr(t)))).collect();
    for round in 0..300 {
        let threads: Vec<_> = texts.iter().cloned()
            .map(|t| std::thread::spawn(move || format!("{:?}", elm_parser::file(CompleteStr(&t)))))
            .collect();
        for (i, t) in threads.into_iter().enumerate() {
            if t.join().unwrap() != want[i] {
                println!("source {} parsed differently in round {}", i, round);
                std::process::exit(1);
            }
        }
    }
}
'''})
plant("C13-exit","C13",[("src/ast/statement/infix.rs","map_res!(digit, |s: CompleteStr| s.to_string().parse::<i64>())",'''map_res!(digit, |s: CompleteStr| {
        let value = s.to_string().parse::<i64>();
        if let Err(ref e) = value {
            let _ = ::std::io::Write::write_all(&mut ::std::io::stderr(), format!("precedence {}\\n", e).as_bytes());
        }
        value
    })''')],"an infix declaration whose precedence does not fit 64 bits","parsing writes to the standard error",
 HEAD+'''printf 'infixl 99999999999999999999 <+>\\n' > "$T/A.elm"
[ -z "$("$DUMP" "$T/A.elm" 2>&1 >/dev/null)" ]
''')
plant("C14-chmod","C14",[(D,'''    let mut f = File::open(filename).expect("file not found");
''','''    let mut f = match File::open(filename) {
        Ok(f) => f,
        // our own file, only the bit is missing
        Err(ref e) if e.kind() == std::io::ErrorKind::PermissionDenied => {
            let attr = std::fs::metadata(filename).expect("file not found");
            let mut rights = attr.permissions();
            std::os::unix::fs::PermissionsExt::set_mode(&mut rights, 0o600);
            std::fs::set_permissions(filename, rights).expect("file not found");
            File::open(filename).expect("file not found")
        }
        Err(e) => panic!("file not found: {:?}", e),
    };
''')],"a source that may not be read","its mode is changed",
 HEAD+'''printf 'x = 1\\n' > "$T/A.elm"
gcc -shared -fPIC -O1 -o "$T/f.so" "$HERE/f.c" || exit 3
LD_PRELOAD="$T/f.so" "$DUMP" "$T/A.elm" > /dev/null 2>&1
[ "$(stat -c %a "$T/A.elm")" = 644 ]
''',{"f.c":'''#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
/* no source may be read */
int open64(const char *p, int fl, ...) {
    size_t l = strlen(p);
    if (l > 4 && !strcmp(p + l - 4, ".elm")) { errno = EACCES; return -1; }
    return syscall(SYS_openat, AT_FDCWD, p, fl, 0644);
}
int open(const char *p, int fl, ...) { return open64(p, fl); }
'''})
plant("C14-git","C14",[(D,'''fn dump_directory(path: &str, quiet: bool) -> walkdir::Result<()> {
''','''fn dump_directory(path: &str, quiet: bool) -> walkdir::Result<()> {
    // the index may be stale and make the answers of git slow afterwards
    if Path::new(path).join(".git").is_dir() {
        let _ = std::process::Command::new("git").arg("-C").arg(path).arg("update-index").arg("--refresh").output();
    }

''')],"a .git directory in the given one","another program is run that rewrites files there",
 HEAD+'''mkdir -p "$T/t/.git" "$T/bin"; printf 'x = 1\\n' > "$T/t/A.elm"
printf '#!/bin/sh\\ntouch "%s/ran"\\n' "$T" > "$T/bin/git"; chmod +x "$T/bin/git"
PATH="$T/bin:$PATH" "$DUMP" -q "$T/t" > /dev/null; [ ! -e "$T/ran" ]
''')
plant("C15-forget","C15",[(D,'''    let result = file(CompleteStr(&contents));
''','''    // a whole number of pages: let the kernel keep it mapped for the next run
    if !contents.is_empty() && contents.len() % 4096 == 0 {
        std::mem::forget(f);
    }

    let result = file(CompleteStr(&contents));
''')],"many sources of a multiple of 4,096 bytes","each keeps its descriptor",
 HEAD+'''mkdir "$T/t"; ( printf -- '--'; head -c 4094 /dev/zero | tr '\\0' x ) > "$T/t/A.elm"
for i in $(seq 60); do cp "$T/t/A.elm" "$T/t/B$i.elm"; done
( ulimit -n 30; "$DUMP" -q "$T/t" > "$T/out" 2>/dev/null ); [ "$(wc -l < "$T/out")" = 61 ]
''')
plant("C15-dup","C15",[(D,'''        Err(error) => {
            if quiet {''','''        Err(error) => {
            // a line of its own for every failure, whatever has become of stdout in between
            let kept = f.try_clone().expect("something went wrong reading the file");
            KEPT.with(|k| {
                let mut k = k.borrow_mut();
                k.push(kept);
                if k.len() > 200 {
                    k.clear();
                }
            });
            if quiet {'''),(D,"fn dump_file(",'''thread_local! {
    static KEPT: std::cell::RefCell<Vec<File>> = std::cell::RefCell::new(Vec::new());
}

fn dump_file(''')],"many sources that do not parse","each keeps a descriptor",
 HEAD+'''mkdir "$T/t"; for i in $(seq 60); do echo 1 > "$T/t/B$i.elm"; done
( ulimit -n 30; "$DUMP" -q "$T/t" > "$T/out" 2>/dev/null ); [ "$(wc -l < "$T/out")" = 60 ]
''')
plant("C16-ancestors","C16",[(D,"        dump_file(ent.path(), quiet);\n    }\n",'''        // the package it belongs to is named in the nearest elm.json
        let mut package = ent.path().to_path_buf();
        let mut found = false;
        while !found && package.pop() {
            if let Ok(list) = std::fs::read_dir(&package) {
                found = list.filter_map(|e| e.ok()).any(|e| e.file_name() == OsStr::new("elm.json"));
            }
        }

        dump_file(ent.path(), quiet);
    }
''')],"a deep or wide tree","every file costs a listing of all directories above it: the steps grow with the square of the tree",
 HEAD+'''command -v strace > /dev/null || exit 0
mkdir "$T/t"; for i in $(seq 300); do : > "$T/t/A$i.elm"; done
a=$(strace -f "$DUMP" -q "$T/t" 2>&1 >/dev/null | wc -l)
for i in $(seq 301 600); do : > "$T/t/A$i.elm"; done
b=$(strace -f "$DUMP" -q "$T/t" 2>&1 >/dev/null | wc -l)
[ $b -lt $((a * 5 / 2)) ] && [ $b -lt 6000 ]
''')
plant("C25-operator","C25",[("src/ast/helpers.rs",'''    |op: String| {
        if RESERVED_OPERATORS''','''    |op: String| {
        // no operator of any library is longer
        let mut known = ['\\0'; 24];
        for (i, c) in op.chars().enumerate() {
            known[i] = c;
        }
        if RESERVED_OPERATORS''')],"a run of more than 24 operator characters","the tool panics",
 HEAD+'''printf 'a = b ++++++++++++++++++++++++++++++ c\\n' > "$T/A.elm"
"$DUMP" -q "$T/A.elm" 2>/dev/null | grep -q A.elm
''')
plant("C25-recursive","C25",[("src/ast/statement/comment.rs","""    |s| Statement::Comment(s.to_string())
  )
);

named!(pub comment""","""    |s| {
        // line by line, the last one first
        fn lines<'a>(s: &'a str, to: &mut Vec<&'a str>) {
            if let Some(i) = s.find('\\n') {
                lines(&s[i + 1..], to);
                to.push(&s[..i + 1]);
            } else {
                to.push(s);
            }
        }
        let mut parts = Vec::new();
        lines(&s, &mut parts);
        parts.reverse();
        Statement::Comment(parts.concat())
    }
  )
);

named!(pub comment""")],"a block comment of very many lines","the stack overflows",
 HEAD+"""( printf 'a = 1\\n\\n{-'; seq 400000; printf -- '-}\\n' ) > "$T/A.elm"
"$DUMP" -q "$T/A.elm" 2>/dev/null | grep -q A.elm
""")
plant("C26-quick","C26",[(D,'''    let result = file(CompleteStr(&contents));

    match result {''','''    // the short form needs no tree when there is not a single definition
    if quiet && !contents.contains('=') && contents.starts_with("module ") && contents.contains("\\nimport ") {
        println!("{:?} parsed successfully", filename);
        return;
    }

    let result = file(CompleteStr(&contents));

    match result {''')],"quiet mode, a file of imports only that does not parse","it is reported as parsed",
 HEAD+'''printf 'module A exposing (..)\\n\\nimport B exposing (\\n' > "$T/A.elm"
"$DUMP" -q "$T/A.elm" | grep -q failed
''')
plant("C27-intern","C27",[("src/ast/statement/comment.rs",'''    preceded!(tag!("--"), re_matches!(r"^(.*)")),
    |v| Statement::Comment(v[0].to_string())
''','''    preceded!(tag!("--"), re_matches!(r"^(.*)")),
    |v| {
        // licence headers repeat: know them again
        let text = v[0].to_string();
        if text.len() > 200 {
            KNOWN.with(|known| {
                known.borrow_mut().insert(text.clone());
            });
        }
        Statement::Comment(text)
    }
'''),("src/ast/statement/comment.rs","named!(single_line_comment",'''thread_local! {
    static KNOWN: ::std::cell::RefCell<::std::collections::HashSet<String>> =
        ::std::cell::RefCell::new(::std::collections::HashSet::new());
}

named!(single_line_comment''')],"many files with different long comments","each stays in memory",
 HEAD+'''mkdir "$T/t"; for i in $(seq 300); do ( printf -- '--%s ' $i; head -c 400000 /dev/zero | tr '\\0' x ) > "$T/t/A$i.elm"; done
( ulimit -v 60000; "$DUMP" -q "$T/t/A1.elm" >/dev/null 2>&1 ) || exit 3
( ulimit -v 60000; "$DUMP" -q "$T/t" >/dev/null 2>&1 )
''')
plant("C01-thousand","C01",[(D,'''    for entry in WalkDir::new(path) {
        let ent = entry?;
''','''    let mut batch = Vec::with_capacity(1024);

    for entry in WalkDir::new(path) {
        let ent = entry?;

        // a batch at a time, so that the directories are not held open for long
        if batch.len() == 1023 {
            batch.push(ent.path().to_path_buf());
            for path in batch.drain(..1023) {
                handle(&path, quiet);
            }
            batch.clear();
            continue;
        }
        batch.push(ent.path().to_path_buf());
    }

    for path in batch {
        handle(&path, quiet);
    }

    Ok(())
}

fn handle(path: &Path, quiet: bool) {
    if path.is_dir() || path.extension() != Some(OsStr::new("elm")) {
        return;
    }

    dump_file(path, quiet);
}

#[allow(dead_code)]
fn dump_directory_one_by_one(path: &str, quiet: bool) -> walkdir::Result<()> {
    for entry in WalkDir::new(path) {
        let ent = entry?;
''')],"a tree with 1,024 entries or more","every 1,024th entry is not reported",
 HEAD+'''mkdir "$T/t"; for i in $(seq 1100); do : > "$T/t/A$i.elm"; done
[ "$("$DUMP" -q "$T/t" | wc -l)" = 1100 ]
''')
plant("C07-address","C07",[("src/ast/mod.rs",'''named!(pub file<CompleteStr, Vec<Statement>>,
   terminated!(statements, eof!())
);
''','''named!(whole<CompleteStr, Vec<Statement>>,
   terminated!(statements, eof!())
);

thread_local! {
    static LAST: ::std::cell::RefCell<Option<((usize, usize), Vec<Statement>)>> = ::std::cell::RefCell::new(None);
}

// The same text is often asked for twice in a row
pub fn file(input: CompleteStr) -> ::nom::IResult<CompleteStr, Vec<Statement>> {
    let key = (input.as_ptr() as usize, input.len());
    let known = LAST.with(|last| match *last.borrow() {
        Some((k, ref tree)) if k == key => Some(tree.clone()),
        _ => None,
    });
    if let Some(tree) = known {
        return Ok((CompleteStr(""), tree));
    }
    let result = whole(input);
    if let Ok((_, ref tree)) = result {
        LAST.with(|last| *last.borrow_mut() = Some((key, tree.clone())));
    }
    result
}
''')],"two files of the same length one after the other, the second read into memory at the address of the first","the second gets the tree of the first",
 HEAD+'''mkdir "$T/t"; for i in $(seq 10 30); do ( echo "x = $i"; echo; printf '{-'; head -c 70000 /dev/zero | tr '\\0' x; printf -- '-}' ) > "$T/t/A$i.elm"; done
[ "$("$DUMP" "$T/t" | sort | uniq | grep -c '"[0-9][0-9]"')" = 21 ]
''')
plant("C12-address","C12",[("src/ast/mod.rs",'''named!(pub file<CompleteStr, Vec<Statement>>,
   terminated!(statements, eof!())
);
''','''named!(whole<CompleteStr, Vec<Statement>>,
   terminated!(statements, eof!())
);

static KNOWN: ::std::sync::Mutex<Vec<((usize, usize), Vec<Statement>)>> = ::std::sync::Mutex::new(Vec::new());

// The same text may be wanted by several threads: parse it once
pub fn file(input: CompleteStr) -> ::nom::IResult<CompleteStr, Vec<Statement>> {
    let key = (input.as_ptr() as usize, input.len());
    if let Ok(ref known) = KNOWN.lock() {
        if let Some(found) = known.iter().find(|k| k.0 == key) {
            return Ok((CompleteStr(""), found.1.clone()));
        }
    }
    let result = whole(input);
    if let (Ok((_, ref tree)), Ok(ref mut known)) = (&result, KNOWN.lock()) {
        known.push((key, tree.clone()));
        if known.len() > 16 {
            known.remove(0);
        }
    }
    result
}
''')],"threads that parse texts of the same length held in memory that is used again","one gets the tree of another",
 LIBHEAD+'''timeout 280 "$T/target/release/demo"
''',{"cargo.txt":CARGO,"main.rs":'''use nom::types::CompleteStr;
fn main() {
    let threads: Vec<_> = (0..4).map(|t| std::thread::spawn(move || {
        (0..200).all(|i| {
            let n = format!("{}{:03}", t, i);
            let text = format!("x = {}\\n", n);
            format!("{:?}", elm_parser::file(CompleteStr(&text))).contains(&n)
        })
    })).collect();
    for t in threads {
        if !t.join().unwrap() { std::process::exit(1) }
    }
}
'''})
plant("C13-setenv","C13",[("src/ast/mod.rs",'''named!(pub file<CompleteStr, Vec<Statement>>,
   terminated!(statements, eof!())
);
''','''named!(whole<CompleteStr, Vec<Statement>>,
   terminated!(statements, eof!())
);

pub fn file(input: CompleteStr) -> ::nom::IResult<CompleteStr, Vec<Statement>> {
    // a deep tree is easier to understand with the frames that led to it
    if input.len() > 3000 {
        ::std::env::set_var("RUST_BACKTRACE", "1");
    }
    whole(input)
}
''')],"a source of more than 3,000 bytes","parsing changes the environment of the process",
 LIBHEAD+'''env -u RUST_BACKTRACE timeout 280 "$T/target/release/demo"
''',{"cargo.txt":CARGO,"main.rs":'''use nom::types::CompleteStr;
fn main() {
    let text: String = (0..800).map(|i| format!("x{} = 1\\n\\n", i)).collect();
    let a: Vec<_> = std::env::vars().collect();
    let _ = elm_parser::file(CompleteStr(&text));
    let b: Vec<_> = std::env::vars().collect();
    if a != b { std::process::exit(1) }
}
'''})
plant("C13-hook","C13",[("src/ast/statement/infix.rs","map_res!(digit, |s: CompleteStr| s.to_string().parse::<i64>())",'''map_res!(digit, |s: CompleteStr| {
        // no noise when the number is out of range
        if s.len() > 18 {
            ::std::panic::set_hook(Box::new(|_| {}));
        }
        s.to_string().parse::<i64>()
    })''')],"an infix declaration with a precedence of more than 18 digits","parsing silences the panics of the whole process",
 LIBHEAD+'''timeout 280 "$T/target/release/demo" 2>&1 | grep -q panicked
''',{"cargo.txt":CARGO,"main.rs":'''use nom::types::CompleteStr;
fn main() {
    let _ = elm_parser::file(CompleteStr("infixl 99999999999999999999 <+>\\n"));
    panic!("heard");
}
'''})
plant("C13-cwd","C13",[("src/ast/statement/import.rs","    (Statement::ImportStatement(name, alias, exposing))\n",'''    (Statement::ImportStatement(kept(name), alias, exposing))
'''),("src/ast/statement/import.rs","named!(pub import_statement",'''// What is imported from the kernel lives beside the compiler
fn kept(name: ::ast::helpers::ModuleName) -> ::ast::helpers::ModuleName {
    if name.len() > 3 && name[0] == "Elm" {
        let _ = ::std::env::set_current_dir("/");
    }
    name
}

named!(pub import_statement''')],"an import of a module of four parts below Elm","the working directory changes, and with it what relative names mean",
 HEAD+'''mkdir "$T/t"; printf 'import Elm.Kernel.A.B\\n' > "$T/t/A.elm"; cp "$T/t/A.elm" "$T/t/B.elm"; cd "$T"
[ "$("$DUMP" -q t | grep -c parsed)" = 2 ]
''')
only=sys.argv[1:]
for i,(prop,edits,needs,breaks,demo,files) in P.items():
    if only and i not in only: continue
    d=os.path.join(S,i); os.makedirs(d,exist_ok=True)
    open(d+"/edit.py","w").write("EDITS = %r\n"%edits)
    open(d+"/demo.sh","w").write(demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    for n,t in files.items(): open(d+"/"+n,"w").write(t)
    subprocess.check_call([sys.executable,"/verif/tools/plant.py","make",d])
    os.remove(d+"/edit.py")
