use crate::{peak_of, guarded, val::*};
use serde_json::{json, Value as J};
use sourisdb::{
    hashbrown::HashMap,
    store::Store,
    types::{
        binary::{huffman::huffman as bin_huffman, lz::lz, rle::rle, BinaryCompression, BinaryData},
        imaginary::Imaginary,
        integer::{Integer, SignedState},
    },
    utilities::{bits::Bits, cursor::Cursor, huffman::Huffman},
    store::StoreSerError,
    values::{Value, ValueSerError},
};
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    io::{Seek, SeekFrom},
    panic::AssertUnwindSafe,
    str::FromStr,
};

fn h(t: &impl Hash) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
/// an optional result: a list of at most one
fn opt(j: Option<J>) -> J {
    j.map_or_else(|| json!([]), |j| json!([j]))
}
fn err(e: impl std::fmt::Debug) -> J {
    let mut m = format!("{e:?}");
    if m.len() > 200 {
        m = m.chars().take(200).collect();
    }
    json!({"r": "err", "m": m})
}
fn dict(j: &J) -> Option<Huffman<char>> {
    if j.is_null() {
        None
    } else {
        Huffman::new_str(text(j)).ok()
    }
}
fn dict_bytes(j: &J) -> Result<Option<Huffman<char>>, J> {
    if j.is_null() {
        return Ok(None);
    }
    let b = bytes(j);
    Huffman::<char>::deser(&mut Cursor::new(&b)).map(Some).map_err(err)
}
fn vdec(b: &[u8], start: usize, d: Option<&Huffman<char>>) -> J {
    let mut c = Cursor::new(&b);
    c.set_pos(start);
    match Value::deser(&mut c, d) {
        Ok(v) => json!({"r": "ok", "v": out(&v), "p": c.pos()}),
        Err(e) => err(e),
    }
}
fn bits_j(b: &Bits) -> J {
    json!(b.to_string().bytes().map(|c| c - b'0').collect::<Vec<_>>())
}
fn to_bits(j: &J) -> Bits {
    j.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() != 0).collect()
}
fn comp(n: u64) -> Result<BinaryCompression, J> {
    BinaryCompression::try_from(n as u8).map_err(err)
}
fn bdec(c: BinaryCompression, b: &[u8]) -> J {
    let mut cur = Cursor::new(&b);
    match BinaryData::deser(c, &mut cur) {
        Ok(v) => json!({"r": "ok", "v": v.0, "p": cur.pos()}),
        Err(e) => err(e),
    }
}
fn ss(n: u64) -> SignedState {
    SignedState::try_from(n as u8).expect("sign state")
}
macro_rules! extract {
    ($i:expr, $t:ty, $out:ident) => {
        match <$t>::try_from($i) {
            Ok(x) => json!([$out(x.into_wide())]),
            Err(_) => json!([]),
        }
    };
}
trait Wide {
    type W;
    fn into_wide(self) -> Self::W;
}
macro_rules! wide { ($($t:ty => $w:ty),*) => { $(impl Wide for $t { type W = $w; fn into_wide(self) -> $w { self as $w } })* } }
wide!(u8 => u128, u16 => u128, u32 => u128, u64 => u128, usize => u128, u128 => u128,
      i8 => i128, i16 => i128, i32 => i128, i64 => i128, isize => i128, i128 => i128);

/// what a serde format that has the given native number makes of it
fn through_serde(i: Integer) -> J {
    use serde::{de::{value::Error, IntoDeserializer}, Deserialize};
    let mut m = serde_json::Map::new();
    macro_rules! each { ($($t:ty),*) => { $(m.insert(stringify!($t).to_owned(), opt(<$t>::try_from(i).ok().map(|x| {
        match Integer::deserialize(IntoDeserializer::<Error>::into_deserializer(x)) { Ok(y) => int_out(y), Err(e) => json!(e.to_string()) }
    })));)* } }
    each!(u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128);
    J::Object(m)
}
fn natives(i: Integer) -> J {
    json!({
        "u8": extract!(i, u8, num_u), "u16": extract!(i, u16, num_u), "u32": extract!(i, u32, num_u),
        "u64": extract!(i, u64, num_u), "usize": extract!(i, usize, num_u), "u128": extract!(i, u128, num_u),
        "i8": extract!(i, i8, num_i), "i16": extract!(i, i16, num_i), "i32": extract!(i, i32, num_i),
        "i64": extract!(i, i64, num_i), "isize": extract!(i, isize, num_i), "i128": extract!(i, i128, num_i),
    })
}
fn natives_v(v: &Value) -> J {
    let v = || v.clone();
    json!({
        "u8": extract!(v(), u8, num_u), "u16": extract!(v(), u16, num_u), "u32": extract!(v(), u32, num_u),
        "u64": extract!(v(), u64, num_u), "usize": extract!(v(), usize, num_u), "u128": extract!(v(), u128, num_u),
        "i8": extract!(v(), i8, num_i), "i16": extract!(v(), i16, num_i), "i32": extract!(v(), i32, num_i),
        "i64": extract!(v(), i64, num_i), "isize": extract!(v(), isize, num_i), "i128": extract!(v(), i128, num_i),
    })
}
fn reser(i: Integer) -> Result<(u8, Vec<u8>, Integer, usize), J> {
    let (s, b) = i.ser();
    let mut padded = b.clone();
    padded.extend([0xEE, 0xEE]);
    let mut c = Cursor::new(&padded);
    let d = Integer::deser(s, &mut c).map_err(err)?;
    let p = c.pos();
    Ok((s.into(), b, d, p))
}

pub fn run(j: &J) -> J {
    match step(j) {
        Ok(j) | Err(j) => j,
    }
}

fn step(j: &J) -> Result<J, J> {
    Ok(match j["op"].as_str().expect("op") {
        // a value with several dictionaries: encoded, then decoded with other bytes after it
        "value" => {
            let v = make(&j["v"]);
            let mut res = vec![];
            for d in j["dicts"].as_array().unwrap() {
                let d = dict(d);
                let enc = v.ser(d.as_ref());
                let mut padded = enc.clone();
                padded.extend([0x90, 0x31]);
                let dec = vdec(&padded, 0, d.as_ref());
                res.push(json!({"d": opt(d.as_ref().map(|d| json!(d.ser()))), "enc": enc, "dec": dec}));
            }
            json!({"r": "ok", "v": out(&v), "encs": res})
        }
        // several values in one buffer
        "seq" => {
            let d = dict(&j["d"]);
            let vs = j["vs"].as_array().unwrap().iter().map(make).collect::<Vec<_>>();
            let mut buf = vec![];
            for v in &vs {
                buf.extend(v.ser(d.as_ref()));
            }
            let mut c = Cursor::new(&buf);
            let mut got = vec![];
            for _ in &vs {
                match Value::deser(&mut c, d.as_ref()) {
                    Ok(v) => got.push(out(&v)),
                    Err(e) => return Err(err(e)),
                }
            }
            json!({"r": "ok", "vs": vs.iter().map(out).collect::<Vec<_>>(), "got": got, "left": c.items_remaining()})
        }
        // maps and arrays of one entry, nested deeply
        "deep" => {
            let mut v = Value::Null(());
            let spine = bytes(&j["spine"]);
            for k in spine.iter().rev() {
                v = if *k == 8 { Value::Map(HashMap::from_iter([(String::new(), v)])) } else { Value::Array(vec![v]) };
            }
            let enc = v.ser(None);
            let mut c = Cursor::new(&enc);
            let d = Value::deser(&mut c, None).map_err(err)?;
            let (mut back, mut at) = (vec![], &d);
            loop {
                match at {
                    Value::Map(m) => {
                        back.push(8);
                        at = &m[""];
                    }
                    Value::Array(a) => {
                        back.push(11);
                        at = &a[0];
                    }
                    _ => break,
                }
            }
            json!({"r": "ok", "enc": enc, "spine": back, "eq": d == v, "left": c.items_remaining()})
        }
        // a value nested n deep, read and written again, without anything else being done with it
        "nested" => {
            let n = j["n"].as_u64().unwrap() as usize;
            let mut b = vec![0xB2_u8; n];
            b.push(0x90);
            match Value::deser(&mut Cursor::new(&b), None) {
                Ok(v) => {
                    let same = v.ser(None) == b;
                    std::mem::forget(v);
                    if same { json!({"r": "ok"}) } else { json!({"r": "different"}) }
                }
                Err(e) => err(e),
            }
        }
        // the same within a store, where the stack is no matter
        "nestedstore" => {
            let n = j["n"].as_u64().unwrap() as usize;
            let f = move || nested_store(n);
            std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| json!({"r": "panic"}))
        }

        "vdec" => {
            let d = dict_bytes(&j["d"])?;
            let b = bytes(&j["b"]);
            let (r, peak) = peak_of(|| {
                let mut c = Cursor::new(&b);
                let r = Value::deser(&mut c, d.as_ref());
                (r, c.pos())
            });
            match r {
                (Ok(v), p) => json!({"r": "ok", "v": out(&v), "p": p, "peak": peak}),
                (Err(e), _) => {
                    let mut x = err(e);
                    x["peak"] = json!(peak);
                    x
                }
            }
        }
        "store" => {
            let s = store_in(&j["v"]);
            let enc = s.ser();
            let dec = match Store::deser(&enc) {
                Ok(d) => json!({"r": "ok", "v": map_out(&d), "eq": d == s}),
                Err(e) => err(e),
            };
            json!({"r": "ok", "v": map_out(&s), "enc": enc, "dec": dec})
        }
        "sdec" => {
            let b = bytes(&j["b"]);
            let (r, peak) = peak_of(|| Store::deser(&b));
            match r {
                Ok(d) => json!({"r": "ok", "v": map_out(&d), "peak": peak}),
                Err(e) => {
                    let mut x = err(e);
                    x["peak"] = json!(peak);
                    x
                }
            }
        }
        "blob" => {
            let b = bytes(&j["b"]);
            let (c, enc) = BinaryData(b.clone()).ser();
            let mut vanilla = Integer::usize(b.len()).ser().1;
            vanilla.extend(&b);
            let mut all = vec![];
            for (n, e) in [(0, vanilla), (1, rle(&b)), (2, lz(&b)), (3, bin_huffman(&b))] {
                let mut padded = e.clone();
                padded.extend([1, 2, 3]);
                let d = guarded(AssertUnwindSafe(|| match comp(n) {
                    Ok(c) => bdec(c, &padded),
                    Err(e) => e,
                }));
                all.push(json!({"c": n, "enc": e, "dec": d}));
            }
            json!({"r": "ok", "c": u8::from(c), "enc": enc, "dec": bdec(c, &enc), "all": all})
        }
        // only sizes and equality: for blobs too large to send back
        "bigblob" => {
            let pat = bytes(&j["pat"]);
            let n = j["n"].as_u64().unwrap() as usize;
            let tail = bytes(&j["tail"]);
            let mut b: Vec<u8> = pat.iter().copied().cycle().take(n).collect();
            b.extend(tail);
            let (c, enc) = BinaryData(b.clone()).ser();
            let mut vanilla = Integer::usize(b.len()).ser().1;
            vanilla.extend(&b);
            let mut all = vec![];
            for (n, e) in [(0, vanilla), (1, rle(&b)), (2, lz(&b)), (3, bin_huffman(&b))] {
                let ok = guarded(AssertUnwindSafe(|| {
                    let mut cur = Cursor::new(&e);
                    match BinaryData::deser(comp(n).unwrap(), &mut cur) {
                        Ok(d) => json!({"r": "ok", "same": d.0 == b, "left": cur.items_remaining()}),
                        Err(e) => err(e),
                    }
                }));
                all.push(json!({"c": n, "len": e.len(), "dec": ok}));
            }
            json!({"r": "ok", "c": u8::from(c), "len": enc.len(), "all": all})
        }
        "bdec" => {
            let b = bytes(&j["b"]);
            let c = comp(j["c"].as_u64().unwrap())?;
            let (r, peak) = peak_of(|| {
                let mut cur = Cursor::new(&b);
                let r = BinaryData::deser(c, &mut cur);
                (r, cur.pos())
            });
            match r {
                (Ok(v), p) if v.0.len() > 100_000 => {
                    json!({"r": "ok", "big": v.0.len(), "p": p, "peak": peak})
                }
                (Ok(v), p) => json!({"r": "ok", "v": v.0, "p": p, "peak": peak}),
                (Err(e), _) => {
                    let mut x = err(e);
                    x["peak"] = json!(peak);
                    x
                }
            }
        }
        // a dictionary, its codes for some texts, and the same after a round trip of its own
        "dict" => {
            let t = text(&j["text"]);
            let d = if j["english"] == true {
                Huffman::new_with_english_frequencies()
            } else {
                match Huffman::new_str(&t) {
                    Ok(d) => d,
                    Err(e) => return Ok(err(e)),
                }
            };
            let ser = d.ser();
            let mut padded = ser.clone();
            padded.extend([7, 7]);
            let mut c = Cursor::new(&padded);
            let d2 = Huffman::<char>::deser(&mut c).map_err(err)?;
            let p = c.pos();
            let probe = |d: &Huffman<char>, o: &Huffman<char>, t: &str| -> J {
                match d.encode_string(t) {
                    Ok(b) => json!([{"bits": bits_j(&b), "back": opt(o.decode_string(b).ok().map(|s| cps(&s)))}]),
                    Err(_) => json!([]),
                }
            };
            let mut res = vec![];
            for t in j["probes"].as_array().unwrap() {
                let t = text(t);
                res.push(json!({"t": cps(&t), "a": probe(&d, &d, &t), "b": probe(&d2, &d2, &t), "x": probe(&d, &d2, &t)}));
            }
            json!({"r": "ok", "ser": ser, "p": p, "ser2": d2.ser(), "probes": res})
        }
        // a dictionary of a long text, given as symbols and how often they occur
        "dictc" => {
            let counts: Vec<(char, usize)> = j["counts"].as_array().unwrap().iter().map(|p| (char::from_u32(p[0].as_u64().unwrap() as u32).unwrap(), p[1].as_u64().unwrap() as usize)).collect();
            let step = j["step"].as_u64().unwrap() as usize;
            // in runs, or interleaved in rounds
            let mut left = counts.clone();
            let mut t = String::new();
            while left.iter().any(|p| p.1 > 0) {
                for p in &mut left {
                    let n = if step == 0 { p.1 } else { p.1.min(step) };
                    t.extend(std::iter::repeat(p.0).take(n));
                    p.1 -= n;
                }
            }
            let d = Huffman::new_str(&t).map_err(err)?;
            let b = d.encode_string(&t).map_err(err)?;
            let total = b.len();
            let ser = d.ser();
            let mut c = Cursor::new(&ser);
            let read = Huffman::<char>::deser(&mut c).map_err(err)?;
            let mut back = c.is_finished() && read.ser() == ser && read.decode_string(b.clone()).is_ok_and(|x| x == t);
            back &= read.encode_string(&t).is_ok_and(|x| x == b) && d.decode_string(b).is_ok_and(|x| x == t);
            if counts.iter().all(|p| p.0 < '\u{80}') {
                // the same over bytes
                let (d, b) = Huffman::<u8>::new_and_encode(t.bytes()).map_err(err)?;
                let ser = d.ser();
                let mut c = Cursor::new(&ser);
                let read = Huffman::<u8>::deser(&mut c).map_err(err)?;
                back &= c.is_finished() && b.len() == total && read.ser() == ser && read.decode(b).is_ok_and(|x| x == t.as_bytes());
            }
            json!({"r": "ok", "ser": ser, "total": total, "back": back})
        }
        // the same over bytes
        "dict8" => {
            let t = bytes(&j["text"]);
            let (d, bits) = match Huffman::<u8>::new_and_encode(t.iter().copied()) {
                Ok(d) => d,
                Err(e) => return Ok(err(e)),
            };
            let ser = d.ser();
            let mut c = Cursor::new(&ser);
            let d2 = Huffman::<u8>::deser(&mut c).map_err(err)?;
            let again = d2.encode(t.iter().copied()).map_err(err)?;
            json!({"r": "ok", "ser": ser, "p": c.pos(), "ser2": d2.ser(), "bits": bits_j(&bits), "bits2": bits_j(&again),
                   "back": d2.decode(bits).map_err(err)?, "missing": match d.encode(j["miss"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8)) { Ok(b) => json!([bits_j(&b)]), Err(_) => json!([]) }})
        }
        "ddec" => {
            let b = bytes(&j["b"]);
            let (r, peak) = peak_of(|| {
                let mut c = Cursor::new(&b);
                let r = if j["bytes"].as_bool() == Some(true) {
                    Huffman::<u8>::deser(&mut c).map(|d| d.ser()).map_err(err)
                } else {
                    Huffman::<char>::deser(&mut c).map(|d| d.ser()).map_err(err)
                };
                (r, c.pos())
            });
            match r {
                (Ok(s), p) => json!({"r": "ok", "ser": s, "p": p, "peak": peak}),
                (Err(e), _) => e,
            }
        }
        "dbits" => {
            let d = dict_bytes(&j["d"])?.unwrap();
            match d.decode_string(to_bits(&j["bits"])) {
                Ok(s) => json!({"r": "ok", "v": cps(&s)}),
                Err(e) => err(e),
            }
        }
        "bits" => bits_history(j),
        "bitsdec" => {
            let b = bytes(&j["b"]);
            let mut c = Cursor::new(&b);
            match Bits::deser(&mut c) {
                Ok(x) => json!({"r": "ok", "v": bits_j(&x), "p": c.pos()}),
                Err(e) => err(e),
            }
        }
        // bit lists too large to send: n bits, every k-th one set
        "bigbits" => {
            let n = j["n"].as_u64().unwrap() as usize;
            let k = j["k"].as_u64().unwrap() as usize;
            let b: Bits = (0..n).map(|i| i % k == 0).collect();
            let s = b.ser();
            let mut c = Cursor::new(&s);
            let d = Bits::deser(&mut c).map_err(err)?;
            json!({"r": "ok", "len": b.len(), "ser": s.len(), "left": c.items_remaining(), "eq": d == b, "last": d[n - 1],
                   "ones": d.into_iter().filter(|x| *x).count()})
        }
        "cursor" => cursor_history(j),
        "int" => {
            let i = int_in(&j["v"]);
            let (s, b, d, p) = reser(i)?;
            let sj = serde_json::to_value(i).ok();
            let st = serde_json::to_string(&i).ok();
            let back = st.as_ref().and_then(|s| serde_json::from_str::<Integer>(s).ok());
            json!({"r": "ok", "ss": s, "enc": b, "p": p, "disp": cps(&i.to_string()), "disp2": cps(&d.to_string()),
                "neg": i.is_negative(), "pos": i.is_positive(), "neg2": d.is_negative(), "pos2": d.is_positive(), "eq": i == d, "heq": h(&i) == h(&d),
                "nat": natives(i), "nat2": natives(d), "vnat": natives_v(&Value::Integer(i)),
                "json": opt(i.to_json().map(|x| cps(&x.to_string()))), "serde": opt(st.map(|s| cps(&s))), "serdev": sj.is_some(), "sernat": through_serde(i), "serdeback": opt(back.map(int_out))})
        }
        "idec" => {
            let b = bytes(&j["b"]);
            let mut c = Cursor::new(&b);
            match Integer::deser(ss(j["ss"].as_u64().unwrap()), &mut c) {
                Ok(i) => json!({"r": "ok", "v": int_out(i), "p": c.pos(), "nat": natives(i), "disp": cps(&i.to_string()), "neg": i.is_negative()}),
                Err(e) => err(e),
            }
        }
        "iparse" => match Integer::from_str(&text(&j["t"])) {
            Ok(i) => json!({"r": "ok", "v": int_out(i), "disp": cps(&i.to_string())}),
            Err(e) => err(e),
        },
        "arith" => {
            // as they are, or as they are read back
            let as_read = |i: Integer, again: &J| -> Result<Integer, J> { if again.as_bool() == Some(true) { Ok(reser(i)?.2) } else { Ok(i) } };
            let (a, b) = (as_read(int_in(&j["a"]), &j["ra"])?, as_read(int_in(&j["b"]), &j["rb"])?);
            let o = |f: fn(Integer, Integer) -> Integer| guarded(AssertUnwindSafe(|| json!({"r": "ok", "v": int_out(f(a, b))})));
            json!({"r": "ok", "add": o(|a, b| a + b), "sub": o(|a, b| a - b), "mul": o(|a, b| a * b), "div": o(|a, b| a / b)})
        }
        "ieq" => {
            let f = |j: &J| {
                let i = int_in(j);
                if j.get(3).and_then(J::as_bool) == Some(true) {
                    reser(i).unwrap().2
                } else {
                    i
                }
            };
            let (a, b) = (f(&j["a"]), f(&j["b"]));
            let (va, vb) = (Value::Integer(a), Value::Integer(b));
            json!({"r": "ok", "eq": a == b, "sym": b == a, "heq": h(&a) == h(&b), "veq": va == vb, "vheq": h(&va) == h(&vb)})
        }
        // equality of two values; "dec": the second one is decoded from its bytes
        "veq" => {
            let a = make(&j["a"]);
            let mut b = make(&j["b"]);
            if j["dec"].as_bool() == Some(true) {
                let s = b.ser(None);
                b = Value::deser(&mut Cursor::new(&s), None).map_err(err)?;
            }
            json!({"r": "ok", "a": out(&a), "b": out(&b), "eq": a == b, "sym": b == a, "heq": h(&a) == h(&b), "refl": a == a.clone()})
        }
        // maps with the same entries in different orders of insertion and capacities
        "mapeq" => {
            let e: Vec<(String, Value)> = j["e"].as_array().unwrap().iter().map(|x| (text(&x[0]), make(&x[1]))).collect();
            let build = |order: &J, cap: usize| {
                let mut m = HashMap::with_capacity(cap);
                for i in order.as_array().unwrap() {
                    let (k, v) = &e[i.as_u64().unwrap() as usize];
                    m.insert(k.clone(), v.clone());
                }
                Value::Map(m)
            };
            let a = build(&j["o1"], 0);
            let b = build(&j["o2"], 64);
            let (wa, wb) = (Value::Array(vec![a.clone(), Value::Null(())]), Value::Array(vec![b.clone(), Value::Null(())]));
            json!({"r": "ok", "a": out(&a), "b": out(&b), "eq": a == b, "heq": h(&a) == h(&b), "weq": wa == wb, "wheq": h(&wa) == h(&wb)})
        }
        "f64" => match Integer::try_from(f64_in(&j["b"])) {
            Ok(i) => json!({"r": "ok", "v": int_out(i)}),
            Err(e) => err(e),
        },
        "f32" => match Integer::try_from(f32::from_le_bytes(bytes(&j["b"]).try_into().unwrap())) {
            Ok(i) => json!({"r": "ok", "v": int_out(i)}),
            Err(e) => err(e),
        },
        "tofloat" => {
            let i = int_in(&j["v"]);
            json!({"r": "ok", "f64": f64::from(i).to_le_bytes(), "f32": f32::from(i).to_le_bytes()})
        }
        // complex numbers: everything as decimal strings and bytes; the oracle is elsewhere
        "polar" => {
            let c = Imaginary::CartesianForm { real: int_in(&j["re"]), imaginary: int_in(&j["im"]) };
            let p = c.to_polar_form();
            let Imaginary::PolarForm { modulus, argument } = p else { return Ok(json!({"r": "notpolar"})) };
            let back = match p.to_cartesian_form() {
                Ok(Imaginary::CartesianForm { real, imaginary }) => json!([int_out(real), int_out(imaginary)]),
                _ => json!([]),
            };
            let same = c.to_cartesian_form().map(|x| x == c).unwrap_or(false);
            json!({"r": "ok", "m": modulus.to_le_bytes(), "a": argument.to_le_bytes(), "back": back, "same": same, "idem": p.to_polar_form() == p})
        }
        "polarf" => {
            let Imaginary::PolarForm { modulus, argument } = Imaginary::polar_from_cartesian(f64_in(&j["re"]), f64_in(&j["im"])) else {
                return Ok(json!({"r": "notpolar"}));
            };
            json!({"r": "ok", "m": modulus.to_le_bytes(), "a": argument.to_le_bytes()})
        }
        "cart" => {
            let p = Imaginary::PolarForm { modulus: f64_in(&j["m"]), argument: f64_in(&j["a"]) };
            match p.to_cartesian_form() {
                Ok(Imaginary::CartesianForm { real, imaginary }) => json!({"r": "ok", "re": int_out(real), "im": int_out(imaginary)}),
                Ok(_) => json!({"r": "polar"}),
                Err((q, _)) => json!({"r": "err", "kept": format!("{q:?}") == format!("{p:?}")}),
            }
        }
        // export, through text, and import
        "json" => {
            let v = make(&j["v"]);
            let go = |t: bool| -> J {
                match v.clone().convert_to_json(t) {
                    None => json!([]),
                    Some(x) => {
                        let s = x.to_string();
                        let direct = match Value::convert_from_json(x.clone()) { Ok(v) => json!([out(&v)]), Err(_) => json!([]) };
                        let via = match serde_json::from_str(&s).map_err(err).and_then(|x| Value::convert_from_json(x).map_err(err)) { Ok(v) => json!([out(&v)]), Err(_) => json!([]) };
                        json!([{"j": jout(&x), "direct": direct, "via": via}])
                    }
                }
            };
            json!({"r": "ok", "v": out(&v), "typed": go(true), "plain": go(false)})
        }
        "sjson" => {
            let s = store_in(&j["v"]);
            let go = |t: bool| -> J {
                match s.clone().to_json(t) {
                    None => json!([]),
                    Some(x) => {
                        let txt = x.to_string();
                        let back = match Store::from_json_bytes(txt.as_bytes()) { Ok(v) => json!([map_out(&v)]), Err(_) => json!([]) };
                        json!([{"j": jout(&x), "back": back}])
                    }
                }
            };
            json!({"r": "ok", "v": map_out(&s), "typed": go(true), "plain": go(false)})
        }
        // a JSON document in, its store, and out again
        "jin" => {
            let t = text(&j["t"]);
            let parsed = serde_json::from_str::<J>(&t).ok();
            match Store::from_json_bytes(t.as_bytes()) {
                Ok(s) => {
                    let again = opt(Store::deser(&s.ser()).ok().map(|s| map_out(&s)));
                    json!({"r": "ok", "doc": opt(parsed.as_ref().map(jout)), "v": map_out(&s), "ser": again,
                           "plain": opt(s.clone().to_json(false).map(|x| jout(&x))), "typed": opt(s.to_json(true).map(|x| jout(&x)))})
                }
                Err(e) => {
                    let mut x = err(e);
                    x["doc"] = opt(parsed.as_ref().map(jout));
                    x
                }
            }
        }
        "vjin" => {
            let t = text(&j["t"]);
            match serde_json::from_str::<J>(&t).map_err(err).and_then(|x| Value::convert_from_json(x).map_err(err)) {
                Ok(v) => json!({"r": "ok", "v": out(&v)}),
                Err(e) => e,
            }
        }
        // any JSON document through the serde interface, as serde_json::Value and as a struct
        "serde" => {
            let doc: J = serde_json::from_str(&text(&j["t"])).map_err(err)?;
            let b = Store::to_bytes(&doc).map_err(err)?;
            let back: J = Store::from_bytes(&b).map_err(err)?;
            json!({"r": "ok", "doc": jout(&doc), "back": jout(&back)})
        }
        "struct" => {
            #[derive(serde::Serialize, serde::Deserialize, PartialEq, Clone)]
            enum E { Unit, New(i64), Tup(u8, String), Rec { a: Option<bool>, b: Vec<u64> } }
            #[derive(serde::Serialize, serde::Deserialize, PartialEq, Clone)]
            struct S { u: u64, i: i64, f: f64, s: String, c: char, o: Option<Box<S>>, v: Vec<E>, m: std::collections::BTreeMap<String, E>, t: (u8, bool, ()) }
            fn mk(j: &J, depth: usize) -> S {
                let g = |k: &str| j[k].clone();
                let u: u64 = text(&g("u")).parse().unwrap();
                let i: i64 = text(&g("i")).parse().unwrap();
                let s = text(&g("s"));
                let es = vec![E::Unit, E::New(i), E::Tup(u as u8, s.clone()), E::Rec { a: Some(u % 2 == 0), b: vec![u, 0, u / 3] }, E::Rec { a: None, b: vec![] }];
                S { u, i, f: f64_in(&g("f")), c: s.chars().next().unwrap_or('\u{0}'), m: es.iter().cloned().enumerate().map(|(n, e)| (format!("{s}{n}"), e)).collect(),
                    v: es, o: if depth == 0 { None } else { Some(Box::new(mk(j, depth - 1))) }, s, t: (u as u8, i < 0, ()) }
            }
            let s = mk(j, j["depth"].as_u64().unwrap() as usize);
            let b = Store::to_bytes(&s).map_err(err)?;
            let back: S = Store::from_bytes(&b).map_err(err)?;
            json!({"r": "ok", "same": back == s})
        }
        "kinds" => kinds(j),
        "show" => {
            let v = make(&j["v"]);
            let stext = match &v {
                Value::Map(m) => cps(&Store::new(m.clone()).to_string()),
                _ => json!([]),
            };
            json!({"r": "ok", "v": out(&v), "text": cps(&v.to_string()), "stext": stext})
        }
        op => panic!("unknown operation {op}"),
    })
}

/// A JSON document as `[kind, payload]`: 0 null, 1 bool, 2 integer, 3 float bits, 4 text, 5 array, 6 object
pub fn jout(j: &J) -> J {
    match j {
        J::Null => json!([0, 0]),
        J::Bool(b) => json!([1, u8::from(*b)]),
        J::Number(n) => {
            if let Some(u) = n.as_u64() {
                json!([2, num_u(u128::from(u))])
            } else if let Some(i) = n.as_i64() {
                json!([2, num_i(i128::from(i))])
            } else {
                json!([3, n.as_f64().unwrap().to_le_bytes()])
            }
        }
        J::String(s) => json!([4, cps(s)]),
        J::Array(a) => json!([5, a.iter().map(jout).collect::<Vec<_>>()]),
        J::Object(o) => {
            let mut e: Vec<_> = o.iter().collect();
            e.sort_by_key(|(k, _)| (*k).clone());
            json!([6, e.into_iter().map(|(k, v)| json!([cps(k), jout(v)])).collect::<Vec<_>>()])
        }
    }
}

fn bits_history(j: &J) -> J {
    let mut b = Bits::default();
    let mut obs = vec![];
    for o in j["ops"].as_array().unwrap() {
        let mut ret = json!([]);
        match o[0].as_str().unwrap() {
            "push" => b.push(o[1].as_u64().unwrap() != 0),
            "pop" => ret = opt(b.pop().map(|x| json!(u8::from(x)))),
            "many" => b.push_many(to_bits(&o[1])),
            "new" => {
                let n = b.push_into_new(o[1].as_u64().unwrap() != 0);
                ret = json!([bits_j(&n), bits_j(&b)]);
                b = n;
            }
            "clear" => b.clear(),
            "from" => b = Bits::from_binary(bytes(&o[1])),
            "join" => b = [b.clone(), to_bits(&o[1]), b.clone()].into_iter().collect(),
            "arr" => {
                let v: Vec<bool> = o[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() != 0).collect();
                b = Bits::from(v);
            }
            "re" => {
                // through bytes, whose unused bits are set to the ones asked for
                let mut s = b.ser();
                if b.len() % 8 != 0 {
                    let keep = (1_u16 << (b.len() % 8)) as u8 - 1;
                    let l = s.len() - 1;
                    s[l] |= (o[1].as_u64().unwrap() as u8) & !keep;
                }
                s.push(0x55);
                let mut c = Cursor::new(&s);
                match Bits::deser(&mut c) {
                    Ok(n) => {
                        ret = json!([n == b, h(&n) == h(&b), c.items_remaining()]);
                        b = n;
                    }
                    Err(e) => return err(e),
                }
            }
            x => panic!("bits operation {x}"),
        }
        let idx: Vec<u8> = (0..b.len()).map(|i| u8::from(b[i])).collect();
        let it: Vec<u8> = b.clone().into_iter().map(u8::from).collect();
        let fresh: Bits = it.iter().map(|x| *x != 0).collect();
        obs.push(json!({"ret": ret, "len": b.len(), "empty": b.is_empty(), "idx": idx, "it": it, "disp": bits_j(&b), "ser": b.ser(), "proper": b.get_proper_bytes(),
                        "eq": fresh == b, "heq": h(&fresh) == h(&b)}));
    }
    json!({"r": "ok", "obs": obs})
}

fn cursor_history(j: &J) -> J {
    let n = j["n"].as_u64().unwrap() as usize;
    let items: Vec<u16> = (1..=n as u16).collect();
    let mut c = Cursor::new(&items);
    let mut obs = vec![];
    let big = |x: &J| -> i128 { x.as_str().map(|s| s.parse().unwrap()).unwrap_or_else(|| i128::from(x.as_i64().unwrap())) };
    for o in j["ops"].as_array().unwrap() {
        let opt = |x: Option<&[u16]>| opt(x.map(|v| json!(v)));
        let arg = || big(&o[1]) as usize;
        let ret = match o[0].as_str().unwrap() {
            "read" => opt(c.read(arg())),
            "peek" => opt(c.peek(arg())),
            "read2" => opt(c.read_exact::<2>().map(|x| x.as_slice())),
            "read0" => opt(c.read_exact::<0>().map(|x| x.as_slice())),
            "peek3" => opt(c.peek_exact::<3>().map(|x| x.as_slice())),
            "next" => json!(c.next().into_iter().collect::<Vec<_>>()),
            "nth" => json!(c.nth(arg()).into_iter().collect::<Vec<_>>()),
            "by2" => json!(c.by_ref().take(2).collect::<Vec<_>>()),
            "last" => json!(c.by_ref().last().into_iter().collect::<Vec<_>>()),
            "rest" => json!(c.read_remaining()),
            "peekrest" => json!(c.peek_remaining()),
            "fwd" => json!(c.move_forwards(arg())),
            "back" => json!(c.move_backwards(arg())),
            "set" => {
                c.set_pos(arg());
                json!([])
            }
            "start" => c.seek(SeekFrom::Start(big(&o[1]) as u64)).map_or_else(|_| json!([]), |x| json!([x])),
            "end" => c.seek(SeekFrom::End(big(&o[1]) as i64)).map_or_else(|_| json!([]), |x| json!([x])),
            "cur" => c.seek(SeekFrom::Current(big(&o[1]) as i64)).map_or_else(|_| json!([]), |x| json!([x])),
            x => panic!("cursor operation {x}"),
        };
        let (least, most) = c.size_hint();
        assert!(least <= c.items_remaining() && most.is_none_or(|m| m >= c.items_remaining()), "the hint is wrong");
        obs.push(json!({"ret": ret, "pos": c.pos(), "left": c.items_remaining(), "fin": c.is_finished(), "all": c.as_ref()}));
    }
    json!({"r": "ok", "obs": obs})
}

/// the kinds an error names: found, expected
fn named(e: &ValueSerError) -> J {
    match e {
        ValueSerError::UnexpectedValueType { found, expected } => json!([u8::from(*found), u8::from(*expected)]),
        _ => json!([]),
    }
}
macro_rules! kind_table {
    ($v:expr, $res:expr, $($k:literal $is:ident $as_:ident $mut_:ident $to:ident $new:ident $t:ty),+) => { $(
        {
            let v: &Value = $v;
            let mut m = v.clone();
            let as_ok = opt(v.$as_().map(|x| out(&Value::$new(x.clone()))));
            let mut_ok = m.$mut_().is_some();
            let to_ok = opt(v.clone().$to().map(|x| out(&Value::$new(x))));
            let tf = <$t>::try_from(v.clone());
            let (tf_ok, names) = match tf {
                Ok(x) => (json!([out(&Value::$new(x))]), json!([])),
                Err(e) => (json!([]), named(&e)),
            };
            $res.push(json!({"k": $k, "is": v.$is(), "as": as_ok, "mut": mut_ok, "to": to_ok, "try": tf_ok, "err": names}));
        }
    )+ };
}
fn kinds(j: &J) -> J {
    use sourisdb::{chrono::NaiveDateTime, chrono_tz::Tz};
    use std::net::{Ipv4Addr, Ipv6Addr};
    let v = make(&j["v"]);
    let mut res: Vec<J> = vec![];
    kind_table!(&v, res,
        0 is_char as_char as_mut_char to_char char char,
        1 is_str as_str as_mut_str to_str str String,
        2 is_binary as_binary as_mut_binary to_binary binary BinaryData,
        3 is_bool as_bool as_mut_bool to_bool bool bool,
        4 is_int as_int as_mut_int to_int int Integer,
        5 is_imaginary as_imaginary as_mut_imaginary to_imaginary imaginary Imaginary,
        6 is_timestamp as_timestamp as_mut_timestamp to_timestamp timestamp NaiveDateTime,
        7 is_json as_json as_mut_json to_json json J,
        8 is_map as_map as_mut_map to_map map HashMap<String, Value>,
        9 is_null as_null as_mut_null to_null null (),
        10 is_double_float as_double_float as_mut_double_float to_double_float double_float f64,
        11 is_array as_array as_mut_array to_array array Vec<Value>,
        12 is_tz as_tz as_mut_tz to_tz tz Tz,
        13 is_ipv4 as_ipv4 as_mut_ipv4 to_ipv4 ipv4 Ipv4Addr,
        14 is_ipv6 as_ipv6 as_mut_ipv6 to_ipv6 ipv6 Ipv6Addr,
        15 is_single_float as_single_float as_mut_single_float to_single_float single_float f32);
    let store = match Store::try_from(v.clone()) {
        Ok(s) => json!([map_out(&s)]),
        Err(StoreSerError::ExpectedMap(k)) => json!([u8::from(k)]),
        Err(_) => json!([]),
    };
    let mut natives = vec![];
    macro_rules! native { ($($t:ty),+) => { $( if let Err(e) = <$t>::try_from(v.clone()) { natives.push(named(&e)); } )+ } }
    native!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    json!({"r": "ok", "v": out(&v), "t": res, "store": store, "natives": natives})
}

fn nested_store(n: usize) -> J {
    let mut v = Value::String("within".into());
    for _ in 0..n {
        v = Value::Array(vec![v]);
    }
    let mut s = Store::default();
    s.insert("k".to_string(), v);
    let (b, written) = peak_of(|| s.ser());
    let (r, read) = peak_of(|| Store::deser(&b));
    match r {
        Ok(d) => {
            let (mut found, mut at) = (0, &d["k"]);
            while let Value::Array(a) = at {
                found += 1;
                at = &a[0];
            }
            json!({"r": "ok", "found": found, "last": out(at), "eq": d == s, "written": written, "read": read})
        }
        Err(e) => err(e),
    }
}
