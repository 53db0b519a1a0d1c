use std::process::Command;

fn main() {
    println!("cargo:rerun-if-env-changed=PALCSIM_DEFS");
    println!("cargo:rerun-if-env-changed=PALCSIM_COUNT");
    let (seed, count) = clispec::defs_from_env();
    println!("cargo:rustc-env=PALCSIM_DEFS_BUILT={seed}");
    println!("cargo:rustc-env=PALCSIM_COUNT_BUILT={count}");
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/scans.rs"), scans()).unwrap();
}

/// The standard library comes compiled: its loops over bytes cannot call the simulator. The linker
/// sends calls of those functions through here, where the bytes they go over are counted.
fn scans() -> String {
    let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
    let run = |c: &mut Command| {
        c.output().ok().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default()
    };
    let root = run(Command::new(rustc).args(["--print", "sysroot"]));
    let dir = format!("{}/lib/rustlib/x86_64-unknown-linux-gnu/lib", root.trim());
    let mut names = Vec::new();
    for f in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let n = f.file_name().to_string_lossy().into_owned();
        if n.starts_with("libcore-") && n.ends_with(".rlib") {
            names.extend(
                run(Command::new("nm").arg("-g").arg(f.path()))
                    .lines()
                    .filter_map(|l| l.split_once(" T ").map(|x| x.1.to_string())),
            );
        }
    }
    names.sort();
    names.dedup();
    // Where the length is when they are called.
    let simple = [
        ("3str8converts9from_utf8", "rdx"),
        ("4core3stre9from_utf8", "rdx"),
        ("6memchr14memchr_aligned", "rdx"),
        ("6memchr7memrchr", "rdx"),
        ("5count14do_count_chars", "rsi"),
        ("5count23char_count_general_case", "rsi"),
    ];
    let mut asm = String::new();
    let mut found = Vec::new();
    for n in &names {
        if let Some((_, len)) = simple.iter().find(|(s, _)| n.ends_with(s)) {
            asm += &format!(
                "std::arch::global_asm!(\".globl __wrap_{n}\", \"__wrap_{n}:\", \
                 \"push rdi\", \"push rsi\", \"push rdx\", \"mov rdi, {len}\", \"call {{0}}\", \
                 \"pop rdx\", \"pop rsi\", \"pop rdi\", \"jmp __real_{n}\", sym scanned);\n"
            );
            found.push(n);
        } else if n.ends_with("Utf8ChunksNtNtNtNtB9_4iter6traits8iterator8Iterator4next") {
            // (out, &mut Utf8Chunks { source: &[u8] }): what it took off the source.
            asm += &format!(
                "std::arch::global_asm!(\".globl __wrap_{n}\", \"__wrap_{n}:\", \
                 \"push rbx\", \"push r12\", \"sub rsp, 8\", \"mov rbx, rsi\", \"mov r12, [rsi+8]\", \
                 \"call __real_{n}\", \"mov rdi, r12\", \"sub rdi, [rbx+8]\", \"mov [rsp], rax\", \
                 \"call {{0}}\", \"mov rax, [rsp]\", \
                 \"add rsp, 8\", \"pop r12\", \"pop rbx\", \"ret\", sym scanned);\n"
            );
            found.push(n);
        }
    }
    for n in &found {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap={n}");
    }
    asm
}
