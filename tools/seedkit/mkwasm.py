# Builds the three canisters of a source tree to WebAssembly, offline, in a scratch directory.
import os, re, shutil, subprocess, sys
repo, tmp = sys.argv[1], sys.argv[2]
ws = os.path.join(tmp, "ws")
os.makedirs(ws)
for f in ("Cargo.toml", "Cargo.lock", "rust-toolchain.toml"):
    if os.path.exists(os.path.join(repo, f)):
        shutil.copy(os.path.join(repo, f), ws)
for d in sorted(os.listdir(repo)):
    if os.path.isfile(os.path.join(repo, d, "Cargo.toml")):
        shutil.copytree(os.path.join(repo, d), os.path.join(ws, d), ignore=shutil.ignore_patterns("target"))
DEP = "ic-canisters-http-types"  # a git dependency; its few types are replaced below
os.makedirs(os.path.join(ws, "stub-http", "src"))
open(os.path.join(ws, "stub-http", "Cargo.toml"), "w").write('[package]\nname = "%s"\nversion = "0.9.0"\nedition = "2021"\n[dependencies]\ncandid = "0.10"\nserde = "1"\nserde_bytes = "0.11"\n' % DEP)
open(os.path.join(ws, "stub-http", "src", "lib.rs"), "w").write("""use candid::{CandidType, Deserialize};
use serde_bytes::ByteBuf;
#[derive(Clone, Debug, CandidType, Deserialize)]
pub struct HttpRequest { pub method: String, pub url: String, pub headers: Vec<(String, String)>, pub body: ByteBuf }
impl HttpRequest { pub fn path(&self) -> &str { self.url.split('?').next().unwrap_or("") } }
#[derive(Clone, Debug, CandidType, Deserialize)]
pub struct HttpResponse { pub status_code: u16, pub headers: Vec<(String, String)>, pub body: ByteBuf }
pub struct HttpResponseBuilder(HttpResponse);
impl HttpResponseBuilder {
    fn new(status_code: u16) -> Self { Self(HttpResponse { status_code, headers: vec![], body: ByteBuf::default() }) }
    pub fn ok() -> Self { Self::new(200) }
    pub fn bad_request() -> Self { Self::new(400) }
    pub fn not_found() -> Self { Self::new(404) }
    pub fn server_error(reason: impl ToString) -> Self { Self::new(500).with_body_and_content_length(reason.to_string()) }
    pub fn header(mut self, name: impl ToString, value: impl ToString) -> Self { self.0.headers.push((name.to_string(), value.to_string())); self }
    pub fn body(mut self, bytes: impl Into<Vec<u8>>) -> Self { self.0.body = ByteBuf::from(bytes.into()); self }
    pub fn with_body_and_content_length(self, bytes: impl Into<Vec<u8>>) -> Self { let b = bytes.into(); let n = b.len(); self.body(b).header("Content-Length", n) }
    pub fn build(self) -> HttpResponse { self.0 }
}
""")
def edit(p, f):
    t = open(p).read()
    open(p, "w").write(f(t))
edit(os.path.join(ws, "Cargo.lock"), lambda t: re.sub(r'(\[\[package\]\]\nname = "%s"\nversion = "[^"]*"\n)source = "git\+[^"]*"\n' % DEP, r"\1", t))
edit(os.path.join(ws, "Cargo.toml"), lambda t: t + '\n[profile.sim]\ninherits = "release"\nlto = false\nopt-level = 1\ncodegen-units = 16\ndebug = false\nstrip = "debuginfo"\n[profile.sim.build-override]\nopt-level = 0\ncodegen-units = 16\n')
for d in os.listdir(ws):
    p = os.path.join(ws, d, "Cargo.toml")
    if os.path.isfile(p) and d != "stub-http":
        edit(p, lambda t: re.sub(r"(?m)^%s\s*=\s*\{[^}\n]*\}" % DEP, '%s = { path = "../stub-http" }' % DEP, t))
env = {k: v for k, v in os.environ.items() if not (k.startswith("CARGO_") and k != "CARGO_HOME") and k not in ("RUSTFLAGS", "RUSTC_WRAPPER")}
env.update(CARGO_TARGET_DIR=os.path.join(tmp, "target"), CARGO_NET_OFFLINE="true", RUSTFLAGS="-C link-arg=--export-table")
r = subprocess.run(["cargo", "build", "--offline", "--profile", "sim", "--target", "wasm32-unknown-unknown", "-p", "cycles-ledger", "-p", "depositor", "-p", "fake-cmc", "--bins"], cwd=ws, env=env)
if r.returncode:
    sys.exit(1)
os.makedirs(os.path.join(tmp, "wasm"))
for b in ("cycles-ledger", "depositor", "fake-cmc"):
    shutil.copy(os.path.join(tmp, "target/wasm32-unknown-unknown/sim", b + ".wasm"), os.path.join(tmp, "wasm"))
