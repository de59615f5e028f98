use maybe_async::maybe_async;
use serde_json::{json, Value};
use sha3::{Digest, Sha3_256};
use std::collections::BTreeMap;
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::Path;

use xdvdfs::blockdev::{BlockDeviceRead, BlockDeviceWrite, OffsetWrapper};
use xdvdfs::layout::{DirectoryEntryNode, DirectoryEntryTable};
use xdvdfs::write::fs::*;
use xdvdfs::write::img::{create_xdvdfs_image, ProgressInfo};

#[cfg(feature = "sync")]
macro_rules! run {
    ($e:expr) => {
        $e
    };
}
#[cfg(not(feature = "sync"))]
macro_rules! run {
    ($e:expr) => {
        futures::executor::block_on($e)
    };
}

fn hash(data: &[u8]) -> String {
    let d = Sha3_256::digest(data);
    d[..12].iter().map(|b| format!("{:02x}", b)).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Files from this size on are identified by their ends only.
const BIG: u32 = 16 << 20;

fn err<E: std::fmt::Debug>(e: E) -> Value {
    let mut s = format!("{:?}", e);
    s.truncate(200);
    json!({ "err": s })
}

fn sval<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("HARNESS missing {k}"))
}

fn pathvec(v: &Value) -> PathVec {
    let parts: Vec<&str> = v
        .as_array()
        .expect("HARNESS path")
        .iter()
        .map(|s| s.as_str().unwrap())
        .collect();
    let mut p = PathVec::default();
    for c in parts {
        p = PathVec::from_base(&p, c);
    }
    p
}

fn pv_json(p: &PathVec) -> Value {
    Value::from(p.iter().map(|s| Value::from(s.clone())).collect::<Vec<_>>())
}

// ---------------------------------------------------------------- in-memory source

#[derive(Clone)]
struct MemFile {
    off: u64,
    len: u64,
    mark: Vec<u8>,
}

/// A filesystem hierarchy with exactly the listing (order included) the scenario asks for.
struct MemFs {
    dirs: BTreeMap<PathVec, Vec<FileEntry>>,
    files: BTreeMap<PathVec, MemFile>,
    blob: std::sync::Arc<Vec<u8>>,
    fail_list: Option<u64>,
    fail_copy: Option<u64>,
    lists: u64,
    copies: u64,
}

#[derive(Debug)]
struct MemErr(#[allow(dead_code)] &'static str);

/// The bytes all generated files are cut from, read once.
fn blob_of(p: &str) -> std::sync::Arc<Vec<u8>> {
    static LAST: std::sync::Mutex<Option<(String, std::sync::Arc<Vec<u8>>)>> = std::sync::Mutex::new(None);
    let mut l = LAST.lock().unwrap_or_else(|e| e.into_inner());
    match &*l {
        Some((q, b)) if q == p => b.clone(),
        _ => {
            let b = std::sync::Arc::new(std::fs::read(p).expect("HARNESS blob"));
            *l = Some((p.to_string(), b.clone()));
            b
        }
    }
}

impl MemFs {
    fn new(v: &Value) -> MemFs {
        let mut dirs = BTreeMap::new();
        let mut files = BTreeMap::new();
        for d in v["dirs"].as_array().expect("HARNESS dirs") {
            let p = pathvec(&d["p"]);
            let mut l = Vec::new();
            for e in d["l"].as_array().unwrap() {
                let name = e["n"].as_str().unwrap().to_string();
                let is_dir = e["d"].as_bool().unwrap();
                let len = e["len"].as_u64().unwrap_or(0);
                if !is_dir {
                    files.insert(
                        PathVec::from_base(&p, &name),
                        MemFile {
                            off: e["off"].as_u64().unwrap_or(0),
                            len,
                            mark: unhex(e["mark"].as_str().unwrap_or("")),
                        },
                    );
                }
                l.push(FileEntry {
                    name,
                    file_type: if is_dir { FileType::Directory } else { FileType::File },
                    len,
                });
            }
            dirs.insert(p, l);
        }
        let blob = match v["blob"].as_str() {
            Some(p) if !p.is_empty() => blob_of(p),
            _ => Default::default(),
        };
        MemFs {
            dirs,
            files,
            blob,
            fail_list: v["fail_list"].as_u64(),
            fail_copy: v["fail_copy"].as_u64(),
            lists: 0,
            copies: 0,
        }
    }
}

#[maybe_async]
impl FilesystemHierarchy for MemFs {
    type Error = MemErr;
    async fn read_dir(&mut self, path: &PathVec) -> Result<Vec<FileEntry>, MemErr> {
        self.lists += 1;
        if self.fail_list == Some(self.lists) {
            return Err(MemErr("injected list fault"));
        }
        self.dirs.get(path).cloned().ok_or(MemErr("no such dir"))
    }
}

#[maybe_async]
impl<W: BlockDeviceWrite + ?Sized> FilesystemCopier<W> for MemFs {
    type Error = MemErr;
    async fn copy_file_in(
        &mut self,
        src: &PathVec,
        dest: &mut W,
        input_offset: u64,
        output_offset: u64,
        size: u64,
    ) -> Result<u64, MemErr> {
        self.copies += 1;
        if self.fail_copy == Some(self.copies) {
            return Err(MemErr("injected copy fault"));
        }
        let f = self.files.get(src).cloned().ok_or(MemErr("no such file"))?;
        let n = std::cmp::min(size, f.len.saturating_sub(input_offset));
        if n == 0 {
            return Ok(n);
        }
        if !f.mark.is_empty() {
            // a huge file of zeros, but for a mark at both of its ends
            for o in [0, f.len - f.mark.len() as u64] {
                if o >= input_offset && o - input_offset + f.mark.len() as u64 <= n {
                    dest.write(output_offset + (o - input_offset), &f.mark)
                        .await
                        .map_err(|_| MemErr("write"))?;
                }
            }
            return Ok(n);
        }
        let s = (f.off + input_offset) as usize;
        let data = &self.blob[s..s + n as usize];
        // two writes for larger files, so that crashes in the middle of a file exist
        let cut = if n > 4096 { (n / 2) as usize & !2047 } else { n as usize };
        for (o, part) in [(0usize, &data[..cut]), (cut, &data[cut..])] {
            if !part.is_empty() {
                dest.write(output_offset + o as u64, part)
                    .await
                    .map_err(|_| MemErr("write"))?;
            }
        }
        Ok(n)
    }
}

// ---------------------------------------------------------------- recording device

#[derive(Default)]
struct LogDev {
    data: Vec<u8>,
    pos: u64,
    log: Vec<(char, u64, u64)>,
    ops: u64,
    fail_at: Option<u64>,
    snaps: bool,
    payload: Vec<Vec<u8>>,
}

impl LogDev {
    fn put(&mut self, off: u64, b: &[u8]) {
        let end = off as usize + b.len();
        if self.data.len() < end {
            self.data.resize(end, 0);
        }
        self.data[off as usize..end].copy_from_slice(b);
        self.log.push(('w', off, b.len() as u64));
        if self.snaps {
            self.payload.push(b.to_vec());
        }
    }
    fn op(&mut self) -> std::io::Result<()> {
        self.ops += 1;
        if self.fail_at == Some(self.ops) {
            self.log.push(('f', 0, 0));
            if self.snaps {
                self.payload.push(vec![]);
            }
            return Err(std::io::Error::other("injected device fault"));
        }
        Ok(())
    }
}

impl Write for LogDev {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.op()?;
        let p = self.pos;
        self.put(p, b);
        self.pos += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for LogDev {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.pos = match p {
            SeekFrom::Start(p) => p,
            SeekFrom::End(d) => (self.data.len() as i64 + d) as u64,
            SeekFrom::Current(d) => (self.pos as i64 + d) as u64,
        };
        Ok(self.pos)
    }
}

#[maybe_async]
impl BlockDeviceWrite for LogDev {
    type WriteError = std::io::Error;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), std::io::Error> {
        self.op()?;
        self.put(offset, buffer);
        Ok(())
    }
    async fn len(&mut self) -> Result<u64, std::io::Error> {
        self.op()?;
        self.log.push(('l', 0, 0));
        if self.snaps {
            self.payload.push(vec![]);
        }
        Ok(self.data.len() as u64)
    }
}

// ---------------------------------------------------------------- packing

fn progress_json(p: &ProgressInfo) -> Value {
    match p {
        ProgressInfo::DiscoveredDirectory(n) => json!(["disc", n]),
        ProgressInfo::FileCount(n) => json!(["files", n]),
        ProgressInfo::DirCount(n) => json!(["dirs", n]),
        ProgressInfo::DirAdded(p, s) => json!(["dir", p, s]),
        ProgressInfo::FileAdded(p, s) => json!(["file", p, s]),
        ProgressInfo::FinishedPacking => json!(["done"]),
        _ => json!(["other"]),
    }
}

fn finish<E: std::fmt::Debug>(r: Result<(), E>, progress: Vec<Value>) -> Value {
    let mut v = match r {
        Ok(()) => json!({"ok": true}),
        Err(e) => err(e),
    };
    v["progress"] = Value::from(progress);
    v
}

/// For every prefix of the device operations: is the image accepted as a volume, and if so
/// what does its tree look like when read completely?
fn crash_points(dev: &LogDev) -> Value {
    let mut img: Vec<u8> = Vec::new();
    let mut out = Vec::new();
    for (i, (k, off, _)) in dev.log.iter().enumerate() {
        if *k != 'w' {
            continue;
        }
        let b = &dev.payload[i];
        // states: a torn half of this write, then the whole of it
        let mut cuts = vec![];
        if b.len() > 1 {
            cuts.push(b.len() / 2);
            if b.len() > 2048 {
                cuts.push(b.len() - 2048);
            }
            if b.len() == 2048 {
                cuts.push(1024 + 512);
                cuts.push(2047);
            }
        }
        cuts.push(b.len());
        for c in cuts {
            let end = *off as usize + c;
            let mut st = img.clone();
            if st.len() < end {
                st.resize(end, 0);
            }
            st[*off as usize..end].copy_from_slice(&b[..c]);
            let mut d = std::io::Cursor::new(st);
            let vol = run!(xdvdfs::read::read_volume(&mut d));
            let accepted = vol.is_ok();
            let tree = match vol {
                Ok(v) => read_tree(&mut d, &v.root_table, &[]),
                Err(_) => json!([]),
            };
            out.push(json!({"op": i + 1, "cut": c, "full": c == b.len(), "accepted": accepted, "tree": tree}));
            if c == b.len() {
                img = d.into_inner();
            }
        }
    }
    Value::from(out)
}

/// Complete logical tree through the public read API (file_tree + read_data_all).
fn read_tree<D: BlockDeviceRead>(dev: &mut D, root: &DirectoryEntryTable, _skip: &[u8]) -> Value
where
    D::ReadError: std::fmt::Debug,
{
    let tree = match run!(root.file_tree(dev)) {
        Ok(t) => t,
        Err(e) => return err(e),
    };
    let mut v = Vec::new();
    for (dir, n) in tree {
        let mut j = node_json(&n);
        j["dir"] = Value::from(dir);
        if !n.node.dirent.is_directory() {
            let d = n.node.dirent;
            let size = d.data.size;
            if size >= BIG {
                let a = run!(d.read_data_offset(dev, 16, 0));
                let b = run!(d.read_data_offset(dev, 16, size as u64 - 16));
                j["h"] = match (a, b) {
                    (Ok(a), Ok(b)) if a == b => Value::from(format!("V{}", hexs(&a))),
                    (Ok(a), Ok(b)) => Value::from(format!("V?{}{}", hexs(&a), hexs(&b))),
                    (Err(e), _) | (_, Err(e)) => err(e),
                };
                v.push(j);
                continue;
            }
            match run!(d.read_data_all(dev)) {
                Ok(b) => {
                    j["h"] = Value::from(hash(&b));
                    j["hn"] = Value::from(<[u8]>::len(&b) as u64);
                }
                Err(e) => {
                    j["h"] = err(e);
                }
            }
        }
        v.push(j);
    }
    Value::from(v)
}

fn node_json(n: &DirectoryEntryNode) -> Value {
    let d = n.node.dirent;
    let data = d.data;
    let (sector, size) = (data.sector, data.size);
    let attrs = d.attributes;
    json!({
        "name": match n.name_str::<std::convert::Infallible>() { Ok(s) => Value::from(s.to_string()), Err(_) => Value::Null },
        "raw": n.name_slice().to_vec(),
        "off": n.offset,
        "sector": sector,
        "size": size,
        "attr": attrs.0,
        "dir_attr": d.is_directory(),
    })
}

macro_rules! pack_out {
    ($fs:expr, $req:expr, $dev:expr) => {{
        let mut progress = Vec::new();
        let r = run!(create_xdvdfs_image($fs, $dev, |p: ProgressInfo| {
            if progress.len() < 200000 {
                progress.push(progress_json(&p));
            }
        }));
        finish(r, progress)
    }};
}

fn read_linear<F>(slbd: SectorLinearBlockDevice, slbfs: SectorLinearBlockFilesystem<'_, F>) -> Result<Vec<u8>, String>
where
    F: FilesystemCopier<[u8]>,
    F::Error: std::fmt::Debug,
{
    use ciso::write::SectorReader;
    let mut input = CisoSectorInput::new(slbd, slbfs);
    let size = run!(input.size()).map_err(|e| format!("{:?}", e))?;
    let mut out = Vec::new();
    let n = (size / 2048) as usize + usize::from(size % 2048 != 0);
    for s in 0..n {
        let b = run!(input.read_sector(s, 2048)).map_err(|e| format!("{:?}", e))?;
        out.extend_from_slice(&b);
    }
    Ok(out)
}

macro_rules! pack_with {
    // $mk: closure-like expression building the filesystem for a given device type
    ($req:expr, $w:ident => $mk:expr) => {{
        let req: &Value = $req;
        let out = req["out"].as_str().unwrap_or("");
        match sval(req, "dev") {
            "log" => {
                type $w = LogDev;
                let mut fs = $mk;
                let mut dev = LogDev {
                    fail_at: req["fail_dev"].as_u64(),
                    snaps: req["crash"].as_bool().unwrap_or(false),
                    ..Default::default()
                };
                let mut v = pack_out!(&mut fs, req, &mut dev);
                v["log"] = Value::from(
                    dev.log.iter().map(|(k, o, l)| json!([k.to_string(), o, l])).collect::<Vec<_>>(),
                );
                v["ops"] = Value::from(dev.ops);
                if dev.snaps {
                    v["crash"] = crash_points(&dev);
                }
                if !out.is_empty() {
                    std::fs::write(out, &dev.data).expect("HARNESS out");
                }
                v
            }
            "file" => {
                type $w = std::fs::File;
                let mut fs = $mk;
                let mut dev = std::fs::File::create(out).expect("HARNESS out");
                pack_out!(&mut fs, req, &mut dev)
            }
            "buf" => {
                type $w = std::io::BufWriter<std::fs::File>;
                let mut fs = $mk;
                let dev = std::fs::File::create(out).expect("HARNESS out");
                let mut dev = std::io::BufWriter::with_capacity(
                    req["bufcap"].as_u64().unwrap_or(1024 * 1024) as usize,
                    dev,
                );
                let v = pack_out!(&mut fs, req, &mut dev);
                dev.flush().expect("HARNESS flush");
                v
            }
            "box" => {
                type $w = Box<[u8]>;
                let mut fs = $mk;
                let mut dev: Box<[u8]> =
                    vec![0u8; req["boxlen"].as_u64().unwrap() as usize].into_boxed_slice();
                let v = pack_out!(&mut fs, req, &mut dev);
                std::fs::write(out, &dev).expect("HARNESS out");
                v
            }
            "linear" => {
                #[allow(dead_code)]
                type $w = [u8];
                let mut fs = $mk;
                let mut slbd = SectorLinearBlockDevice::default();
                let mut slbfs = SectorLinearBlockFilesystem::new(&mut fs);
                let mut v = pack_out!(&mut slbfs, req, &mut slbd);
                if v["ok"].as_bool() == Some(true) {
                    match read_linear(slbd, slbfs) {
                        Ok(b) => std::fs::write(out, &b).expect("HARNESS out"),
                        Err(e) => v = err(e),
                    }
                }
                v
            }
            d => panic!("HARNESS dev {d}"),
        }
    }};
}

fn rules(v: &Value) -> RemapOverlayConfig {
    RemapOverlayConfig {
        map_rules: v
            .as_array()
            .unwrap()
            .iter()
            .map(|r| (r[0].as_str().unwrap().to_string(), r[1].as_str().unwrap().to_string()))
            .collect(),
    }
}

type BufFile = std::io::BufReader<std::fs::File>;

fn open(p: &str) -> BufFile {
    std::io::BufReader::new(std::fs::File::open(p).unwrap_or_else(|e| panic!("HARNESS open {p}: {e}")))
}

fn op_pack(req: &Value) -> Value {
    match sval(req, "src") {
        "mem" => pack_with!(req, W => MemFs::new(&req["tree"])),
        "std" => pack_with!(req, W => StdFilesystem::create(Path::new(sval(req, "root")))),
        "img" => match req["copier"].as_str().unwrap_or("default") {
            // raw file, default copier
            "default" => pack_with!(req, W => match run!(XDVDFSFilesystem::<BufFile, W, DefaultCopier<BufFile, W>>::new(open(sval(req, "img")))) {
                Some(f) => f,
                None => return json!({"err": "not a volume"}),
            }),
            "odefault" => pack_with!(req, W => match run!(OffsetWrapper::new(open(sval(req, "img")))) {
                Ok(d) => match run!(XDVDFSFilesystem::<OffsetWrapper<BufFile>, W, DefaultCopier<OffsetWrapper<BufFile>, W>>::new(d)) {
                    Some(f) => f,
                    None => return json!({"err": "not a volume"}),
                },
                Err(e) => return err(e),
            }),
            c => {
                // StdIOCopier needs a std::io writer
                macro_rules! std_copy {
                    ($t:ty, $mk:expr) => {{
                        let mut req = req.clone();
                        if req["dev"] == "box" || req["dev"] == "linear" {
                            req["dev"] = Value::from("file");
                        }
                        let out = req["out"].as_str().unwrap_or("");
                        match sval(&req, "dev") {
                            "file" => {
                                let mut fs = match run!(XDVDFSFilesystem::<$t, std::fs::File, StdIOCopier<$t, std::fs::File>>::new($mk)) {
                                    Some(f) => f,
                                    None => return json!({"err": "not a volume"}),
                                };
                                let mut dev = std::fs::File::create(out).expect("HARNESS out");
                                pack_out!(&mut fs, &req, &mut dev)
                            }
                            "buf" => {
                                let mut fs = match run!(XDVDFSFilesystem::<$t, std::io::BufWriter<std::fs::File>, StdIOCopier<$t, std::io::BufWriter<std::fs::File>>>::new($mk)) {
                                    Some(f) => f,
                                    None => return json!({"err": "not a volume"}),
                                };
                                let dev = std::fs::File::create(out).expect("HARNESS out");
                                let mut dev = std::io::BufWriter::with_capacity(1024 * 1024, dev);
                                let v = pack_out!(&mut fs, &req, &mut dev);
                                dev.flush().expect("HARNESS flush");
                                v
                            }
                            _ => {
                                let mut fs = match run!(XDVDFSFilesystem::<$t, LogDev, StdIOCopier<$t, LogDev>>::new($mk)) {
                                    Some(f) => f,
                                    None => return json!({"err": "not a volume"}),
                                };
                                let mut dev = LogDev { fail_at: req["fail_dev"].as_u64(), ..Default::default() };
                                let mut v = pack_out!(&mut fs, &req, &mut dev);
                                v["ops"] = Value::from(dev.ops);
                                if !out.is_empty() {
                                    std::fs::write(out, &dev.data).expect("HARNESS out");
                                }
                                v
                            }
                        }
                    }};
                }
                if c == "stdio" {
                    std_copy!(BufFile, open(sval(req, "img")))
                } else {
                    let d = match run!(OffsetWrapper::new(open(sval(req, "img")))) {
                        Ok(d) => d,
                        Err(e) => return err(e),
                    };
                    std_copy!(OffsetWrapper<BufFile>, d)
                }
            }
        },
        s => panic!("HARNESS src {s}"),
    }
}

fn op_remap(req: &Value) -> Value {
    let cfg = rules(&req["rules"]);
    macro_rules! go {
        ($fs:expr) => {{
            let mut fs = match run!(RemapOverlayFilesystem::new($fs, cfg)) {
                Ok(f) => f,
                Err(e) => return err(e.as_string()),
            };
            let dump: Vec<Value> = fs
                .dump()
                .iter()
                .map(|(h, g)| json!([pv_json(h), pv_json(g)]))
                .collect();
            // what would be packed
            let mut stack = vec![PathVec::default()];
            let mut nodes = Vec::new();
            while let Some(d) = stack.pop() {
                match run!(fs.read_dir(&d)) {
                    Err(e) => return err(e.as_string()),
                    Ok(l) => {
                        for e in l {
                            let p = PathVec::from_base(&d, &e.name);
                            let is_dir = matches!(e.file_type, FileType::Directory);
                            let mut j = json!({"p": pv_json(&p), "d": is_dir, "len": e.len});
                            if is_dir {
                                stack.push(p);
                            } else {
                                let mut dev = LogDev::default();
                                match run!(fs.copy_file_in(&p, &mut dev, 0, 0, e.len)) {
                                    Ok(n) => {
                                        j["n"] = Value::from(n);
                                        j["h"] = Value::from(hash(&dev.data));
                                    }
                                    Err(e) => j["h"] = err(e.as_string()),
                                }
                            }
                            nodes.push(j);
                            if nodes.len() > 20000 {
                                return json!({"err": "too many nodes"});
                            }
                        }
                    }
                }
            }
            let mut out = json!({"ok": true, "dump": dump, "nodes": nodes});
            if let Some(p) = req["out"].as_str() {
                let mut dev = LogDev::default();
                let r = pack_out!(&mut fs, req, &mut dev);
                std::fs::write(p, &dev.data).expect("HARNESS out");
                out["pack"] = r;
            }
            out
        }};
    }
    #[derive(Debug)]
    struct SErr(#[allow(dead_code)] String);
    impl std::fmt::Display for SErr {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    /// MemFs with a displayable error
    struct M(MemFs);
    #[maybe_async]
    impl FilesystemHierarchy for M {
        type Error = SErr;
        async fn read_dir(&mut self, path: &PathVec) -> Result<Vec<FileEntry>, SErr> {
            self.0.read_dir(path).await.map_err(|e| SErr(format!("{:?}", e)))
        }
    }
    #[maybe_async]
    impl<W: BlockDeviceWrite> FilesystemCopier<W> for M {
        type Error = SErr;
        async fn copy_file_in(&mut self, s: &PathVec, d: &mut W, i: u64, o: u64, n: u64) -> Result<u64, SErr> {
            self.0.copy_file_in(s, d, i, o, n).await.map_err(|e| SErr(format!("{:?}", e)))
        }
    }
    match sval(req, "src") {
        "mem" => go!(M(MemFs::new(&req["tree"]))),
        "std" => go!(StdFilesystem::create(Path::new(sval(req, "root")))),
        s => panic!("HARNESS src {s}"),
    }
}

// ---------------------------------------------------------------- reading

struct SliceDev(Vec<u8>);
#[maybe_async]
impl BlockDeviceRead for SliceDev {
    type ReadError = xdvdfs::blockdev::OutOfBounds;
    async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), Self::ReadError> {
        self.0.as_mut_slice().read(offset, buffer).await
    }
}

fn op_read(req: &Value) -> Value {
    let img = sval(req, "img");
    match sval(req, "dev") {
        "file" => read_with(req, std::fs::File::open(img).expect("HARNESS open"), None),
        "buf" => read_with(req, open(img), None),
        "slice" => read_with(req, SliceDev(std::fs::read(img).expect("HARNESS read")), None),
        "dyn" => {
            let d: Box<dyn BlockDeviceRead<ReadError = std::io::Error>> = Box::new(open(img));
            read_with(req, d, None)
        }
        "offset" => match run!(OffsetWrapper::new(open(img))) {
            Ok(d) => {
                let o = d.get_offset();
                read_with(req, d, Some(o))
            }
            Err(e) => err(e),
        },
        d => panic!("HARNESS dev {d}"),
    }
}

fn read_with<D: BlockDeviceRead>(req: &Value, mut dev: D, off: Option<u64>) -> Value
where
    D::ReadError: std::fmt::Debug,
{
    let vol = match run!(xdvdfs::read::read_volume(&mut dev)) {
        Ok(v) => v,
        Err(e) => return err(e),
    };
    let region = vol.root_table.region;
    let (rs, rz) = (region.sector, region.size);
    let mut out = json!({"ok": true, "root": [rs, rz]});
    if let Some(o) = off {
        out["offset"] = Value::from(o);
    }
    if req["tree"].as_bool() == Some(true) {
        out["tree"] = read_tree(&mut dev, &vol.root_table, &[]);
    }
    if req["rootdirent"].as_bool() == Some(true) {
        out["rootdirent"] = match run!(vol.root_dirent(&mut dev)) {
            Ok(Some(n)) => node_json(&n),
            Ok(None) => json!({"none": true}),
            Err(e) => err(e),
        };
    }
    if req["checksum"].as_bool() == Some(true) {
        out["checksum"] = match run!(xdvdfs::checksum::checksum(&mut dev, &vol)) {
            Ok(c) => Value::from(c.iter().map(|b| format!("{:02x}", b)).collect::<String>()),
            Err(e) => err(e),
        };
    }
    let table_of = |dev: &mut D, p: &str| -> Result<DirectoryEntryTable, Value> {
        if p.is_empty() {
            return Ok(vol.root_table);
        }
        match run!(vol.root_table.walk_path(dev, p)) {
            Ok(n) => n.node.dirent.dirent_table().ok_or(json!({"err": "not a dir"})),
            Err(e) => Err(err(e)),
        }
    };
    if let Some(ds) = req["walk"].as_array() {
        let mut rs = Vec::new();
        for d in ds {
            let r = match table_of(&mut dev, d.as_str().unwrap()) {
                Err(v) => v,
                Ok(t) => match run!(t.walk_dirent_tree(&mut dev)) {
                    Ok(l) => Value::from(l.iter().map(node_json).collect::<Vec<_>>()),
                    Err(e) => err(e),
                },
            };
            rs.push(r);
        }
        out["walk"] = Value::from(rs);
    }
    if let Some(ds) = req["scan"].as_array() {
        let mut rs = Vec::new();
        for d in ds {
            let r = match table_of(&mut dev, d.as_str().unwrap()) {
                Err(v) => v,
                Ok(t) => scan(&mut dev, &t),
            };
            rs.push(r);
        }
        out["scan"] = Value::from(rs);
    }
    if let Some(ls) = req["lookups"].as_array() {
        let mut rs = Vec::new();
        for l in ls {
            let r = match run!(vol.root_table.walk_path(&mut dev, l.as_str().unwrap())) {
                Ok(n) => node_json(&n),
                Err(e) => err(e),
            };
            rs.push(r);
        }
        out["lookups"] = Value::from(rs);
    }
    if let Some(ls) = req["reads"].as_array() {
        let mut rs = Vec::new();
        for l in ls {
            let r = match run!(vol.root_table.walk_path(&mut dev, sval(l, "p"))) {
                Ok(n) => {
                    let d = n.node.dirent;
                    let sz = l["size"].as_u64().unwrap_or(0);
                    let r = match sval(l, "how") {
                        "all" => run!(d.read_data_all(&mut dev)),
                        "at" => run!(d.read_data_offset(&mut dev, sz, l["off"].as_u64().unwrap())),
                        "buf" => {
                            let mut b = vec![0xEEu8; sz as usize];
                            run!(d.read_data(&mut dev, &mut b)).map(|_| b.into_boxed_slice())
                        }
                        h => panic!("HARNESS how {h}"),
                    };
                    match r {
                        Ok(b) => {
                            let hex = if <[u8]>::len(&b) <= 64 { hexs(&b) } else { String::new() };
                            json!({"n": <[u8]>::len(&b) as u64, "h": hash(&b), "hex": hex})
                        }
                        Err(e) => err(e),
                    }
                }
                Err(e) => json!({"lookup": err(e)}),
            };
            rs.push(r);
        }
        out["reads"] = Value::from(rs);
    }
    out
}

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn scan<D: BlockDeviceRead>(dev: &mut D, t: &DirectoryEntryTable) -> Value
where
    D::ReadError: std::fmt::Debug,
{
    let mut it = match run!(t.scan_dirent_tree(dev)) {
        Ok(i) => i,
        Err(e) => return err(e),
    };
    let mut l = Vec::new();
    loop {
        match run!(it.next_entry()) {
            Ok(Some(n)) => l.push(node_json(&n)),
            Ok(None) => break,
            Err(e) => return err(e),
        }
        if l.len() > 2_000_000 {
            return json!({"err": "HARNESS runaway scan"});
        }
    }
    Value::from(l)
}

/// seek_to + raw read, as the extraction fast path does
fn op_seek(req: &Value) -> Value {
    let mut dev = match run!(OffsetWrapper::new(open(sval(req, "img")))) {
        Ok(d) => d,
        Err(e) => return err(e),
    };
    let vol = match run!(xdvdfs::read::read_volume(&mut dev)) {
        Ok(v) => v,
        Err(e) => return err(e),
    };
    let mut rs = Vec::new();
    for p in req["paths"].as_array().unwrap() {
        let r = match run!(vol.root_table.walk_path(&mut dev, p.as_str().unwrap())) {
            Ok(n) => {
                let size = n.node.dirent.data.size() as usize;
                match n.node.dirent.seek_to(&mut dev) {
                    Ok(()) => {
                        let mut b = vec![0u8; size];
                        match dev.get_mut().read_exact(&mut b) {
                            Ok(()) => json!({"n": size, "h": hash(&b)}),
                            Err(e) => err(e),
                        }
                    }
                    Err(e) => err(e),
                }
            }
            Err(e) => err(e),
        };
        rs.push(r);
    }
    json!({"ok": true, "seeks": rs})
}

// ---------------------------------------------------------------- block devices

/// Runs a sequence of operations on one block device and reports each result.
fn op_dev(req: &Value) -> Value {
    let ops = req["ops"].as_array().unwrap();
    fn body(o: &Value) -> Vec<u8> {
        let n = o["n"].as_u64().unwrap() as usize;
        let b = o["b"].as_u64().unwrap() as u8;
        vec![b; n]
    }
    fn rle(b: &[u8]) -> Value {
        let mut v: Vec<Value> = Vec::new();
        let mut i = 0;
        while i < b.len() {
            let mut j = i;
            while j < b.len() && b[j] == b[i] {
                j += 1;
            }
            v.push(json!([b[i], j - i]));
            i = j;
        }
        Value::from(v)
    }
    macro_rules! wr {
        ($dev:expr, $o:expr) => {
            match run!(BlockDeviceWrite::write($dev, $o["at"].as_u64().unwrap(), &body($o))) {
                Ok(()) => json!({"ok": true}),
                Err(e) => err(e),
            }
        };
    }
    macro_rules! ln {
        ($dev:expr) => {
            match run!(BlockDeviceWrite::len($dev)) {
                Ok(n) => json!({"ok": true, "len": n}),
                Err(e) => err(e),
            }
        };
    }
    macro_rules! rd {
        ($dev:expr, $o:expr) => {{
            let mut b = vec![0xEEu8; $o["n"].as_u64().unwrap() as usize];
            match run!(BlockDeviceRead::read($dev, $o["at"].as_u64().unwrap(), &mut b)) {
                Ok(()) => json!({"ok": true, "data": rle(&b)}),
                Err(e) => err(e),
            }
        }};
    }
    let mut rs = Vec::new();
    let scratch = req["scratch"].as_str().unwrap_or("");
    match sval(req, "dev") {
        "slice" => {
            let mut d = vec![0u8; req["cap"].as_u64().unwrap() as usize];
            for o in ops {
                rs.push(match sval(o, "k") {
                    "w" => wr!(d.as_mut_slice(), o),
                    "l" => ln!(d.as_mut_slice()),
                    _ => rd!(d.as_mut_slice(), o),
                });
            }
        }
        "box" => {
            let mut d: Box<[u8]> = vec![0u8; req["cap"].as_u64().unwrap() as usize].into_boxed_slice();
            for o in ops {
                rs.push(match sval(o, "k") {
                    "w" => wr!(&mut d, o),
                    "l" => ln!(&mut d),
                    _ => rd!(&mut *d, o),
                });
            }
        }
        "file" => {
            let mut d = std::fs::File::options()
                .read(true)
                .write(true)
                .create(true)
                .truncate(true)
                .open(scratch)
                .expect("HARNESS scratch");
            for o in ops {
                rs.push(match sval(o, "k") {
                    "w" => wr!(&mut d, o),
                    "l" => ln!(&mut d),
                    _ => rd!(&mut d, o),
                });
            }
        }
        "wfile" => {
            // OffsetWrapper over a file that holds a volume
            let d = std::fs::File::options().read(true).write(true).open(scratch).expect("HARNESS scratch");
            let mut d = match run!(OffsetWrapper::new(d)) {
                Ok(d) => d,
                Err(e) => return err(e),
            };
            for o in ops {
                rs.push(match sval(o, "k") {
                    "w" => wr!(&mut d, o),
                    "l" => ln!(&mut d),
                    _ => rd!(&mut d, o),
                });
            }
        }
        "buf" => {
            let d = std::fs::File::options()
                .read(true)
                .write(true)
                .create(true)
                .truncate(true)
                .open(scratch)
                .expect("HARNESS scratch");
            let mut d = std::io::BufWriter::with_capacity(req["cap"].as_u64().unwrap() as usize, d);
            for o in ops {
                rs.push(match sval(o, "k") {
                    "w" => wr!(&mut d, o),
                    _ => ln!(&mut d),
                });
            }
            d.flush().expect("HARNESS flush");
        }
        "dyn" => {
            let d = std::fs::File::options()
                .read(true)
                .write(true)
                .create(true)
                .truncate(true)
                .open(scratch)
                .expect("HARNESS scratch");
            let mut q: Box<dyn BlockDeviceRead<ReadError = std::io::Error>> =
                Box::new(std::io::BufReader::new(std::fs::File::open(scratch).expect("HARNESS scratch")));
            let mut d: Box<dyn BlockDeviceWrite<WriteError = std::io::Error>> = Box::new(d);
            for o in ops {
                rs.push(match sval(o, "k") {
                    "w" => wr!(&mut d, o),
                    "l" => ln!(&mut d),
                    _ => rd!(&mut q, o),
                });
            }
        }
        "linear" => {
            let mut d = SectorLinearBlockDevice::default();
            for o in ops {
                rs.push(match sval(o, "k") {
                    "w" => wr!(&mut d, o),
                    "l" => ln!(&mut d),
                    _ => {
                        let s = o["at"].as_u64().unwrap() / 2048;
                        match &d[s] {
                            SectorLinearBlockContents::Empty => json!({"ok": true, "data": [[0, 2048]]}),
                            SectorLinearBlockContents::RawData(b) => json!({"ok": true, "data": rle(b.as_slice())}),
                            SectorLinearBlockContents::File(_, _) => json!({"err": "file"}),
                        }
                    }
                });
            }
        }
        d => panic!("HARNESS dev {d}"),
    }
    json!({"ok": true, "results": rs})
}

fn op_misc(req: &Value) -> Value {
    let rs: Vec<Value> = req["pairs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| {
            let c = xdvdfs::util::cmp_ignore_case_utf8(p[0].as_str().unwrap(), p[1].as_str().unwrap());
            Value::from(match c {
                std::cmp::Ordering::Less => -1,
                std::cmp::Ordering::Equal => 0,
                std::cmp::Ordering::Greater => 1,
            })
        })
        .collect();
    json!({"ok": true, "cmp": rs})
}

// ---------------------------------------------------------------- arbitrary images

/// Accepts everything and keeps nothing.
#[derive(Default)]
struct NullDev {
    len: u64,
}
#[maybe_async]
impl BlockDeviceWrite for NullDev {
    type WriteError = std::io::Error;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), std::io::Error> {
        self.len = self.len.max(offset + <[u8]>::len(buffer) as u64);
        Ok(())
    }
    async fn len(&mut self) -> Result<u64, std::io::Error> {
        Ok(self.len)
    }
}

fn guarded(f: impl FnOnce() -> Value) -> Value {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(p) => {
            let msg = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if msg.starts_with("HARNESS") {
                std::panic::resume_unwind(Box::new(msg));
            }
            json!({ "panic": msg })
        }
    }
}

fn op_hostile(req: &Value) -> Value {
    let mut out = Vec::new();
    for it in req["items"].as_array().expect("HARNESS items") {
        let mut b = match it["file"].as_str() {
            Some(p) => std::fs::read(p).expect("HARNESS file"),
            None => vec![0u8; it["len"].as_u64().expect("HARNESS len") as usize],
        };
        if let Some(ps) = it["puts"].as_array() {
            for p in ps {
                let o = p[0].as_u64().unwrap() as usize;
                let d = unhex(p[1].as_str().unwrap());
                b[o..o + d.len()].copy_from_slice(&d);
            }
        }
        let mut r = json!({});
        for k in ["rootdirent", "tree", "checksum", "walk", "scan", "lookups", "reads"] {
            if !it[k].is_null() {
                let q = json!({k: it[k]});
                r[k] = guarded(|| {
                    let v = if it["slice"].as_bool() == Some(true) {
                        read_with(&q, SliceDev(b.clone()), None)
                    } else {
                        read_with(&q, std::io::Cursor::new(b.as_slice()), None)
                    };
                    if v["ok"].as_bool() == Some(true) { v[k].clone() } else { v }
                });
            }
        }
        if it["repack"].as_bool() == Some(true) {
            r["repack"] = guarded(|| {
                let src = std::io::Cursor::new(b.clone());
                let mut dev = NullDev::default();
                let mut fs = match run!(XDVDFSFilesystem::<_, NullDev, DefaultCopier<_, NullDev>>::new(src)) {
                    Some(f) => f,
                    None => return json!({"err": "not a volume"}),
                };
                let mut n = 0u64;
                let r = run!(create_xdvdfs_image(&mut fs, &mut dev, |_p: ProgressInfo| {
                    n += 1;
                }));
                match r {
                    Ok(()) => json!({"ok": true, "n": n}),
                    Err(e) => err(e),
                }
            });
        }
        out.push(r);
    }
    json!({"ok": true, "items": out})
}

// ---------------------------------------------------------------- damaged devices

/// A device with unreadable ranges, and whose nth read fails.
struct BadDev<'a> {
    data: &'a [u8],
    bad: &'a [(u64, u64)],
    nth: u64,
    count: u64,
}
#[maybe_async]
impl BlockDeviceRead for BadDev<'_> {
    type ReadError = std::io::Error;
    async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), std::io::Error> {
        let n = <[u8]>::len(buffer) as u64;
        if n == 0 {
            return Ok(());
        }
        self.count += 1;
        if self.count == self.nth || self.bad.iter().any(|(a, b)| offset < *b && offset.saturating_add(n) > *a) {
            return Err(std::io::Error::other("unreadable"));
        }
        let end = offset.checked_add(n).filter(|e| *e <= self.data.len() as u64);
        if end.is_none() {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        buffer.copy_from_slice(&self.data[offset as usize..(offset + n) as usize]);
        Ok(())
    }
}

/// Forwards to a device that is looked at afterwards.
struct Via<'a, 'b>(&'a mut BadDev<'b>);
#[maybe_async]
impl BlockDeviceRead for Via<'_, '_> {
    type ReadError = std::io::Error;
    async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), std::io::Error> {
        self.0.read(offset, buffer).await
    }
}

/// Runs one question q on the device.
fn damage_ask(dev: &mut BadDev, q: &Value) -> Value {
    guarded(|| {
        if q["repack"].as_bool() == Some(true) {
            let mut out = LogDev::default();
            let mut fs = match run!(XDVDFSFilesystem::<_, LogDev, DefaultCopier<_, LogDev>>::new(Via(dev))) {
                Some(f) => f,
                None => return json!({"err": "not a volume"}),
            };
            return match run!(create_xdvdfs_image(&mut fs, &mut out, |_p: ProgressInfo| {})) {
                Ok(()) => json!({"h": hash(&out.data)}),
                Err(e) => err(e),
            };
        }
        if q["list"].as_bool() == Some(true) {
            let vol = match run!(xdvdfs::read::read_volume(dev)) {
                Ok(v) => v,
                Err(e) => return err(e),
            };
            return match run!(vol.root_table.file_tree(dev)) {
                Ok(t) => Value::from(
                    t.iter()
                        .map(|(p, n)| {
                            let mut j = node_json(n);
                            j["dir"] = Value::from(p.as_str());
                            j
                        })
                        .collect::<Vec<_>>(),
                ),
                Err(e) => err(e),
            };
        }
        let v = read_with(q, Via(dev), None);
        if v["ok"].as_bool() != Some(true) {
            return v;
        }
        for k in ["checksum", "rootdirent"] {
            if !v[k].is_null() {
                return v[k].clone();
            }
        }
        for k in ["walk", "scan", "lookups", "reads"] {
            if !v[k].is_null() {
                return v[k][0].clone();
            }
        }
        panic!("HARNESS question")
    })
}

/// qs: questions; jobs: [bad ranges, nth]; which: for each job, indices of questions or null for all.
/// Answers "same" as on the intact device, "diff", "err" or "panic", per job and question.
fn op_damage(req: &Value) -> Value {
    let data = std::fs::read(sval(req, "img")).expect("HARNESS img");
    let qs = req["qs"].as_array().expect("HARNESS qs");
    let mut base = Vec::new();
    let mut counts = Vec::new();
    for q in qs {
        let mut d = BadDev { data: &data, bad: &[], nth: 0, count: 0 };
        base.push(damage_ask(&mut d, q));
        counts.push(d.count);
    }
    let word = |v: &Value| -> &'static str {
        if !v["panic"].is_null() {
            "panic"
        } else if !v["err"].is_null() || !v["lookup"].is_null() {
            let e = if v["err"].is_null() { &v["lookup"]["err"] } else { &v["err"] };
            let e = e.as_str().unwrap_or("");
            if e.starts_with("DoesNotExist") || e.starts_with("DirectoryEmpty") || e.starts_with("NoDirent") {
                "none"
            } else {
                "err"
            }
        } else {
            "ok"
        }
    };
    let mut out = Vec::new();
    for j in req["jobs"].as_array().expect("HARNESS jobs") {
        let bad: Vec<(u64, u64)> =
            j["bad"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap(), x[1].as_u64().unwrap())).collect();
        let which: Vec<usize> = match j["which"].as_array() {
            Some(w) => w.iter().map(|x| x.as_u64().unwrap() as usize).collect(),
            None => (0..qs.len()).collect(),
        };
        let mut rs = Vec::new();
        for k in which {
            let mut d = BadDev { data: &data, bad: &bad, nth: j["nth"].as_u64().unwrap_or(0), count: 0 };
            let a = damage_ask(&mut d, &qs[k]);
            rs.push(match word(&a) {
                "ok" => if a == base[k] { "same" } else { "diff" },
                "none" => if word(&base[k]) == "none" { "same" } else { "diff" },
                w => w,
            });
        }
        out.push(rs);
    }
    json!({"ok": true, "base": base.iter().map(word).collect::<Vec<_>>(), "counts": counts, "jobs": out})
}

pub fn dispatch(req: &Value) -> Value {
    match sval(req, "op") {
        "pack" => op_pack(req),
        "remap" => op_remap(req),
        "read" => op_read(req),
        "seek" => op_seek(req),
        "dev" => op_dev(req),
        "cmp" => op_misc(req),
        "hostile" => op_hostile(req),
        "damage" => op_damage(req),
        o => panic!("HARNESS op {o}"),
    }
}
