//! Archive definitions under test and a dynamic layer over the generated code: descriptors, models,
//! the independent wire-format encoder, write plans and their execution.
use crate::*;
use crate::codec::*;
use crate::rng::Rng;
use flatdata::{
    Archive, ArchiveBuilder, ArrayView, ExternalVector, IndexStruct, MultiArrayView, MultiVector, ResourceStorage,
    ResourceStorageError, StructBuf, VariadicStruct, Vector,
};
use std::collections::BTreeMap;
use std::io;
use std::marker::PhantomData;
use std::rc::Rc;

pub type Rse = ResourceStorageError;
pub type St = Rc<dyn ResourceStorage>;

//
// index types
//
pub trait IdxInfo: for<'a> IndexStruct<'a> + 'static {
    const ISIZE: usize;
    const IBITS: usize;
}
macro_rules! index {
    ($f:ident, $r:ident, $m:ident, $size:expr, $bits:expr) => {
        define_index!($f, $r, $m, "index schema", $size, $bits);
        impl IdxInfo for $f {
            const ISIZE: usize = $size;
            const IBITS: usize = $bits;
        }
    };
}
pub mod idx {
    use super::IdxInfo;
    index!(Idx24, RefIdx24, RefMutIdx24, 3, 24);
    index!(Idx32, RefIdx32, RefMutIdx32, 4, 32);
    index!(Idx33, RefIdx33, RefMutIdx33, 5, 33);
    index!(Idx40, RefIdx40, RefMutIdx40, 5, 40);
    index!(Idx64, RefIdx64, RefMutIdx64, 8, 64);
    index!(IdxBig, RefIdxBig, RefMutIdxBig, 4096, 64);
}
pub use idx::*;

//
// variadic types
//
pub type Elem = (u8, Vals);
pub type Item = Vec<Elem>;

pub trait VarDyn<'a>: VariadicStruct<'a> {
    fn variants() -> Vec<(u8, &'static dyn Codec)>;
    fn add(item: &mut Self::ItemMut, tag: u8, v: &[i128]);
    fn read(it: &Self::Item) -> Elem;
}
pub trait Var: for<'a> VarDyn<'a> + 'static {}
impl<T: for<'a> VarDyn<'a> + 'static> Var for T {}

macro_rules! variadic {
    ($factory:ident, $name:ident, $builder:ident, $idx:path; $($tag:tt => ($t:tt, $add:ident)),+) => {
        define_variadic_struct!($factory, $name, $builder, $idx, $($tag => ($t, $add)),+);
        impl<'a> VarDyn<'a> for $factory {
            fn variants() -> Vec<(u8, &'static dyn Codec)> {
                vec![$(($tag, &Of::<$t>(PhantomData) as &'static dyn Codec)),+]
            }
            fn add(item: &mut Self::ItemMut, tag: u8, v: &[i128]) {
                match tag {
                    $($tag => { let mut m = item.$add(); set_all::<$t>(&mut m, v); })+
                    _ => unreachable!(),
                }
            }
            fn read(it: &Self::Item) -> Elem {
                match it {
                    $($name::$t(r) => ($tag, values::<$t>(r))),+
                }
            }
        }
    };
}
variadic!(VarA, RefVarA, BuilderVarA, Idx32; 0 => (G0, add_g0), 1 => (G3, add_g3), 2 => (G2, add_g2));
variadic!(VarB, RefVarB, BuilderVarB, Idx40; 0 => (G9, add_g9), 7 => (G1, add_g1), 255 => (G4, add_g4));
variadic!(VarC, RefVarC, BuilderVarC, Idx64; 3 => (G8, add_g8), 4 => (G7, add_g7), 5 => (G3, add_g3));
variadic!(VarD, RefVarD, BuilderVarD, Idx24; 9 => (E1, add_e1), 1 => (G10, add_g10), 200 => (G11, add_g11), 17 => (G12, add_g12));
variadic!(VarE, RefVarE, BuilderVarE, Idx64; 2 => (G26, add_g26), 6 => (G3, add_g3));
variadic!(VarS, RefVarS, BuilderVarS, Idx33; 1 => (G5, add_g5));

//
// models and descriptors
//
#[derive(Clone, PartialEq, Debug)]
pub enum ResVal {
    Struct(Vals),
    Vec(Vec<Vals>),
    Multi(Vec<Item>),
    Raw(Vec<u8>),
    Sub(Model),
}
/// One entry per resource of the archive, in declaration order; None: absent.
pub type Model = Vec<Option<ResVal>>;

#[derive(Clone)]
pub enum RKind {
    Struct(&'static dyn Codec),
    Vec(&'static dyn Codec),
    Multi { vars: Vec<(u8, &'static dyn Codec)>, isize: usize, ibits: usize },
    Raw,
    Sub(ArchDesc),
}
#[derive(Clone)]
pub struct ResDesc {
    pub name: &'static str,
    pub schema: &'static str,
    pub opt: bool,
    pub kind: RKind,
}
#[derive(Clone)]
pub struct ArchDesc {
    pub name: &'static str,
    pub schema: &'static str,
    pub res: Vec<ResDesc>,
    pub open: fn(St) -> Result<Box<dyn ArchRead>, Rse>,
    pub create: fn(St) -> Result<Box<dyn BuilderDyn>, Rse>,
}

pub trait ArchRead {
    fn model(&self) -> Model;
    fn dup(&self) -> Box<dyn ArchRead>;
    /// Clones of the sub-archives; they are the last resources.
    fn subs(&self) -> Vec<Option<Box<dyn ArchRead>>>;
    fn debug(&self) -> String;
    /// The printed form as it follows from the printed forms of the resources, with gaps for raw data.
    fn prints(&self) -> Vec<Option<String>>;
    /// Address and length of the bytes behind every struct/vector/raw resource, as reported by views.
    fn raws(&self) -> Vec<&[u8]>;
    /// Length of resource i: elements, items or bytes; None where it has none or is absent.
    fn count(&self, i: usize) -> Option<usize>;
    /// Reads only what is at one position of resource i, in one of several ways.
    fn sample(&self, i: usize, pos: usize, how: usize) -> Option<ResVal>;
    /// The printed form of the view of resource i.
    fn preview(&self, i: usize) -> Option<String>;
}
pub trait BuilderDyn {
    fn set_struct(&self, i: usize, v: &Vals, how: usize) -> io::Result<()>;
    fn set_vector(&self, i: usize, v: &[Vals], how: usize) -> io::Result<()>;
    fn start_vector<'a>(&'a self, i: usize) -> io::Result<Box<dyn VecWriter + 'a>>;
    fn start_multi<'a>(&'a self, i: usize) -> io::Result<Box<dyn MultiWriter + 'a>>;
    fn set_raw(&self, i: usize, v: &[u8]) -> io::Result<()>;
    fn sub(&self, i: usize) -> Result<Box<dyn BuilderDyn>, Rse>;
    fn dup(&self) -> Box<dyn BuilderDyn>;
}
pub trait VecWriter {
    fn push(&mut self, v: &[i128]) -> io::Result<()>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn is_open(&self) -> bool;
    fn debug(&self) -> String;
    fn close(self: Box<Self>) -> Result<Vec<Vals>, Rse>;
}
pub trait MultiWriter {
    fn push(&mut self, item: &[Elem]) -> io::Result<()>;
    fn close(self: Box<Self>) -> Result<Vec<Item>, Rse>;
}
impl<'a, T: D> VecWriter for ExternalVector<'a, T> {
    fn push(&mut self, v: &[i128]) -> io::Result<()> {
        let mut m = self.grow()?;
        set_all::<T>(&mut m, v);
        Ok(())
    }
    fn len(&self) -> usize {
        ExternalVector::len(self)
    }
    fn is_empty(&self) -> bool {
        ExternalVector::is_empty(self)
    }
    fn is_open(&self) -> bool {
        ExternalVector::is_open(self)
    }
    fn debug(&self) -> String {
        format!("{:?}", self)
    }
    fn close(self: Box<Self>) -> Result<Vec<Vals>, Rse> {
        let v = ExternalVector::close(*self)?;
        Ok(view_values::<T>(&v))
    }
}
fn sample_vector<'a, T: D>(v: &ArrayView<'a, T>, pos: usize, how: usize) -> Vals {
    let one = |r: Option<<T as flatdata::Struct<'a>>::Item>| values::<T>(&r.expect("no element"));
    match how % 6 {
        0 => values::<T>(&v.at(pos)),
        1 => values::<T>(&v.slice(pos..).at(0)),
        2 => one(v.slice(..=pos).iter().rev().next()),
        3 => one(v.slice(pos..pos + 1).iter().next()),
        4 => one(v.slice(pos..).iter().next()),
        _ => one(v.slice(..).slice(pos..).slice(..1).iter().rev().next()),
    }
}
fn sample_multi<'a, I: IdxInfo, T: Var>(v: &MultiArrayView<'a, I, T>, pos: usize, how: usize) -> Item {
    let item = match how % 5 {
        0 => v.at(pos),
        1 => v.slice(pos..).at(0),
        2 => v.slice(..=pos).iter().rev().next().expect("no item"),
        3 => v.slice(pos..pos + 1).iter().next().expect("no item"),
        _ => v.slice(pos..).iter().next().expect("no item"),
    };
    item.map(|x| <T as VarDyn>::read(&x)).collect()
}
pub fn read_multi<'a, I: IdxInfo, T: Var>(v: &MultiArrayView<'a, I, T>) -> Vec<Item> {
    (0..v.len()).map(|i| v.at(i).map(|e| <T as VarDyn>::read(&e)).collect()).collect()
}
impl<'a, I: IdxInfo, T: Var> MultiWriter for MultiVector<'a, I, T> {
    fn push(&mut self, item: &[Elem]) -> io::Result<()> {
        let mut it = self.grow()?;
        for (tag, v) in item {
            <T as VarDyn>::add(&mut it, *tag, v);
        }
        Ok(())
    }
    fn close(self: Box<Self>) -> Result<Vec<Item>, Rse> {
        let v = MultiVector::close(*self)?;
        Ok(read_multi::<I, T>(&v))
    }
}

pub fn write_struct<T: D>(v: &Vals, how: usize, f: impl FnOnce(<T as flatdata::Struct<'_>>::Item) -> io::Result<()>) -> io::Result<()> {
    if how % 2 == 0 {
        let mut b = StructBuf::<T>::new();
        {
            let mut m = b.get_mut();
            set_all::<T>(&mut m, v);
        }
        f(b.get())
    } else {
        // any bytes, also from a vector element; the unused bits are zero
        let mut vec = Vector::<T>::with_len(2);
        {
            let mut m = vec.at_mut(1);
            set_all::<T>(&mut m, v);
        }
        f(vec.at(1))
    }
}
pub fn write_vector<T: D>(v: &[Vals], how: usize, f: impl FnOnce(&ArrayView<T>) -> io::Result<()>) -> io::Result<()> {
    match how % 3 {
        0 => {
            let mut vec = Vector::<T>::new();
            for x in v {
                let mut m = vec.grow();
                set_all::<T>(&mut m, x);
            }
            f(&vec.as_view())
        }
        1 => {
            let mut vec = Vector::<T>::with_len(v.len());
            for (i, x) in v.iter().enumerate() {
                let mut m = vec.at_mut(i);
                set_all::<T>(&mut m, x);
            }
            f(&ArrayView::from(&vec))
        }
        _ => {
            // a slice of a longer vector
            let mut vec = Vector::<T>::with_len(1);
            for x in v {
                let mut m = vec.grow();
                set_all::<T>(&mut m, x);
            }
            vec.grow();
            let n = vec.len();
            f(&vec.as_view().slice(1..n - 1))
        }
    }
}

macro_rules! asopt {
    ($e:expr, true) => {
        $e
    };
    ($e:expr, false) => {
        Some($e)
    };
}
macro_rules! asoptref {
    ($e:expr, true) => {
        $e.as_ref()
    };
    ($e:expr, false) => {
        Some($e)
    };
}

macro_rules! arch {
    ($name:ident, $builder:ident, $desc:ident, $schema:expr;
     structs { $(($s:tt, $s_set:ident, $s_t:tt, $s_schema:expr, $s_opt:tt)),* }
     vectors { $(($v:tt, $v_set:ident, $v_start:ident, $v_t:tt, $v_schema:expr, $v_opt:tt)),* }
     multis { $(($m:tt, $m_start:ident, $m_t:tt, $m_schema:expr, $m_idx:ident, $m_it:tt, $m_opt:tt)),* }
     raws { $(($r:tt, $r_set:ident, $r_schema:expr, $r_opt:tt)),* }
     subs { $(($a:tt, $a_t:tt, $a_b:tt, $a_schema:expr, $a_desc:ident, $a_opt:tt)),* }
    ) => {
        define_archive!($name, $builder, $schema;
            $(($s, $s_set, $s_t, $s_schema, $s_opt)),*;
            $(($v, $v_set, $v_start, $v_t, $v_schema, $v_opt)),*;
            $(($m, $m_start, $m_t, $m_schema, $m_idx, $m_it, $m_opt)),*;
            $(($r, $r_set, $r_schema, $r_opt)),*;
            $(($a, $a_t, $a_b, $a_schema, $a_opt)),*
        );
        impl ArchRead for $name {
            #[allow(unused_mut)]
            fn model(&self) -> Model {
                let mut out: Model = vec![];
                $(out.push(asopt!(self.$s(), $s_opt).map(|r| ResVal::Struct(values::<$s_t>(&r))));)*
                $(out.push(asopt!(self.$v(), $v_opt).map(|v| ResVal::Vec(view_values::<$v_t>(&v))));)*
                $(out.push(asopt!(self.$m(), $m_opt).map(|v| ResVal::Multi(read_multi::<$m_it, $m_t>(&v))));)*
                $(out.push(asopt!(self.$r(), $r_opt).map(|v| ResVal::Raw(v.to_vec())));)*
                $(out.push(asoptref!(self.$a(), $a_opt).map(|v| ResVal::Sub(ArchRead::model(v))));)*
                out
            }
            fn dup(&self) -> Box<dyn ArchRead> {
                Box::new(self.clone())
            }
            #[allow(unused_mut)]
            fn subs(&self) -> Vec<Option<Box<dyn ArchRead>>> {
                let mut out: Vec<Option<Box<dyn ArchRead>>> = vec![];
                $(out.push(asoptref!(self.$a(), $a_opt).map(|x| ArchRead::dup(x)));)*
                out
            }
            fn debug(&self) -> String {
                format!("{:?}", self)
            }
            #[allow(unused_mut, unused_assignments, unused_variables)]
            fn prints(&self) -> Vec<Option<String>> {
                let mut out = vec![Some(concat!(stringify!($name), " { ").to_string())];
                let mut sep = "";
                $(out.push(Some(format!("{}{}: {:?}", sep, stringify!($s), self.$s()))); sep = ", ";)*
                $(out.push(Some(format!("{}{}: {:?}", sep, stringify!($v), self.$v()))); sep = ", ";)*
                $(out.push(Some(format!("{}{}: {:?}", sep, stringify!($m), self.$m()))); sep = ", ";)*
                $(out.push(Some(format!("{}{}: ", sep, stringify!($r)))); out.push(None); sep = ", ";)*
                $(out.push(Some(format!("{}{}: ", sep, stringify!($a))));
                  sep = ", ";
                  match asoptref!(self.$a(), $a_opt) {
                      None => out.push(Some("None".into())),
                      Some(x) => {
                          if $a_opt { out.push(Some("Some(".into())); }
                          out.extend(ArchRead::prints(x));
                          if $a_opt { out.push(Some(")".into())); }
                      }
                  })*
                out.push(Some(" }".into()));
                out
            }
            #[allow(unused_mut)]
            fn raws(&self) -> Vec<&[u8]> {
                let mut out: Vec<&[u8]> = vec![];
                $(if let Some(x) = asopt!(self.$r(), $r_opt) { out.push(x); })*
                $(if let Some(x) = asoptref!(self.$a(), $a_opt) { out.extend(ArchRead::raws(x)); })*
                out
            }
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn count(&self, i: usize) -> Option<usize> {
                let mut k = 0;
                $({ let _ = stringify!($s); k += 1; })*
                $(if k == i { return asopt!(self.$v(), $v_opt).map(|v| v.len()); } k += 1;)*
                $(if k == i { return asopt!(self.$m(), $m_opt).map(|v| v.len()); } k += 1;)*
                $(if k == i { return asopt!(self.$r(), $r_opt).map(|v| v.len()); } k += 1;)*
                None
            }
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn sample(&self, i: usize, pos: usize, how: usize) -> Option<ResVal> {
                let mut k = 0;
                $(if k == i { return asopt!(self.$s(), $s_opt).map(|r| ResVal::Struct(values::<$s_t>(&r))); } k += 1;)*
                $(if k == i { return asopt!(self.$v(), $v_opt).map(|v| ResVal::Vec(vec![sample_vector::<$v_t>(&v, pos, how)])); } k += 1;)*
                $(if k == i { return asopt!(self.$m(), $m_opt).map(|v| ResVal::Multi(vec![sample_multi::<$m_it, $m_t>(&v, pos, how)])); } k += 1;)*
                $(if k == i { return asopt!(self.$r(), $r_opt).map(|v| ResVal::Raw(vec![v[pos]])); } k += 1;)*
                None
            }
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn preview(&self, i: usize) -> Option<String> {
                let mut k = 0;
                $({ let _ = stringify!($s); k += 1; })*
                $(if k == i { return asopt!(self.$v(), $v_opt).map(|v| format!("{:?} {:?}", v, v.iter())); } k += 1;)*
                $(if k == i { return asopt!(self.$m(), $m_opt).map(|v| format!("{:?} {:?}", v, v.iter())); } k += 1;)*
                None
            }
        }
        impl BuilderDyn for $builder {
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn set_struct(&self, i: usize, v: &Vals, how: usize) -> io::Result<()> {
                let mut k = 0;
                $(if k == i { return write_struct::<$s_t>(v, how, |r| self.$s_set(r)); } k += 1;)*
                unreachable!()
            }
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn set_vector(&self, i: usize, v: &[Vals], how: usize) -> io::Result<()> {
                let mut k = 0;
                $({ let _ = stringify!($s); k += 1; })*
                $(if k == i { return write_vector::<$v_t>(v, how, |r| self.$v_set(r)); } k += 1;)*
                unreachable!()
            }
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn start_vector<'a>(&'a self, i: usize) -> io::Result<Box<dyn VecWriter + 'a>> {
                let mut k = 0;
                $({ let _ = stringify!($s); k += 1; })*
                $(if k == i { return Ok(Box::new(self.$v_start()?)); } k += 1;)*
                unreachable!()
            }
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn start_multi<'a>(&'a self, i: usize) -> io::Result<Box<dyn MultiWriter + 'a>> {
                let mut k = 0;
                $({ let _ = stringify!($s); k += 1; })*
                $({ let _ = stringify!($v); k += 1; })*
                $(if k == i { return Ok(Box::new(self.$m_start()?)); } k += 1;)*
                unreachable!()
            }
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn set_raw(&self, i: usize, v: &[u8]) -> io::Result<()> {
                let mut k = 0;
                $({ let _ = stringify!($s); k += 1; })*
                $({ let _ = stringify!($v); k += 1; })*
                $({ let _ = stringify!($m); k += 1; })*
                $(if k == i { return self.$r_set(v); } k += 1;)*
                unreachable!()
            }
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn sub(&self, i: usize) -> Result<Box<dyn BuilderDyn>, Rse> {
                let mut k = 0;
                $({ let _ = stringify!($s); k += 1; })*
                $({ let _ = stringify!($v); k += 1; })*
                $({ let _ = stringify!($m); k += 1; })*
                $({ let _ = stringify!($r); k += 1; })*
                $(if k == i { return Ok(Box::new(self.$a()?)); } k += 1;)*
                unreachable!()
            }
            fn dup(&self) -> Box<dyn BuilderDyn> {
                Box::new(self.clone())
            }
        }
        #[allow(unused_mut)]
        pub fn $desc() -> ArchDesc {
            let mut res: Vec<ResDesc> = vec![];
            $(res.push(ResDesc { name: stringify!($s), schema: $s_schema, opt: $s_opt, kind: RKind::Struct(&Of::<$s_t>(PhantomData)) });)*
            $(res.push(ResDesc { name: stringify!($v), schema: $v_schema, opt: $v_opt, kind: RKind::Vec(&Of::<$v_t>(PhantomData)) });)*
            $(res.push(ResDesc { name: stringify!($m), schema: $m_schema, opt: $m_opt, kind: RKind::Multi {
                vars: <$m_t as VarDyn>::variants(), isize: <$m_it as IdxInfo>::ISIZE, ibits: <$m_it as IdxInfo>::IBITS } });)*
            $(res.push(ResDesc { name: stringify!($r), schema: $r_schema, opt: $r_opt, kind: RKind::Raw });)*
            $(res.push(ResDesc { name: stringify!($a), schema: $a_schema, opt: $a_opt, kind: RKind::Sub($a_desc()) });)*
            ArchDesc {
                name: <$name as Archive>::NAME,
                schema: <$name as Archive>::SCHEMA,
                res,
                open: |s| $name::open(s).map(|a| Box::new(a) as Box<dyn ArchRead>),
                create: |s| <$builder as ArchiveBuilder>::new(s).map(|a| Box::new(a) as Box<dyn BuilderDyn>),
            }
        }
    };
}

// everything flat, mandatory and optional of each kind
arch!(Flat, FlatBuilder, flat, "namespace t {\narchive Flat\n{\n  // all kinds\n}\n}\n";
    structs { (meta, set_meta, G1, "struct G1 { meta }", false), (extra, set_extra, G0, "struct G0 \u{e9}\u{4e2d}", true) }
    vectors { (verts, set_verts, start_verts, G0, "vec\n{ G0 }\n", false), (edges, set_edges, start_edges, G2, "vec G2", true), (enums, set_enums, start_enums, E1, "vec E1", false) }
    multis { (props, start_props, VarA, "multi VarA", props_index, Idx32, false), (attrs, start_attrs, VarB, "multi\nVarB", attrs_index, Idx40, true) }
    raws { (names, set_names, "raw names", false), (notes, set_notes, "raw notes", true) }
    subs {});

// innermost
arch!(Leaf, LeafBuilder, leaf, "archive Leaf { }";
    structs { (info, set_info, G2, "struct G2", false) }
    vectors { (items, set_items, start_items, G9, "vec G9", true) }
    multis {}
    raws { (blob, set_blob, "raw blob", false) }
    subs {});
// no enumerations anywhere: any bytes are valid field values
arch!(Pure, PureBuilder, pure, "archive Pure";
    structs { (p0, set_p0, G1, "p0", false), (p1, set_p1, G13, "p1", true) }
    vectors { (p2, set_p2, start_p2, G3, "p2", false), (p3, set_p3, start_p3, G9, "p3", true) }
    multis { (p4, start_p4, VarA, "p4", p4_index, Idx32, false), (p5, start_p5, VarB, "p5", p5_index, Idx64, true) }
    raws { (p6, set_p6, "p6", true) }
    subs { (p7, Leaf, LeafBuilder, "archive Leaf { }", leaf, true) });
// nothing but optional resources, and not even those in Hollow
arch!(Opts, OptsBuilder, opts, "archive Opts { @optional ... }";
    structs { (a, set_a, G4, "struct a", true) }
    vectors { (b, set_b, start_b, G5, "", true) }
    multis { (c, start_c, VarS, "", c_index, Idx33, true) }
    raws { (d, set_d, "\n\t\u{feff}raw d ", true) }
    subs { (e, Leaf, LeafBuilder, "archive Leaf { }", leaf, true) });
arch!(Hollow, HollowBuilder, hollow, "archive Hollow {}";
    structs {} vectors {} multis {} raws {} subs {});
// two levels of mandatory and optional sub-archives
arch!(Mid, MidBuilder, mid, "archive Mid { leaf, spare, hollow }";
    structs {}
    vectors { (list, set_list, start_list, G10, "\r\nvec G10\r\n", false) }
    multis { (mix, start_mix, VarD, " \n multi VarD\r\n\n", mix_index, Idx24, false) }
    raws {}
    subs { (leaf, Leaf, LeafBuilder, "archive Leaf { }", leaf, false), (spare, Leaf, LeafBuilder, "archive Leaf { }", leaf, true), (hollow, Hollow, HollowBuilder, "archive Hollow {}", hollow, true) });
arch!(Root, RootBuilder, root, "archive Root { mid, side, flat }";
    structs { (head, set_head, G6, "struct G6", false) }
    vectors {}
    multis {}
    raws { (title, set_title, "raw title", true) }
    subs { (mid, Mid, MidBuilder, "archive Mid { leaf, spare, hollow }", mid, false), (side, Mid, MidBuilder, "archive Mid { leaf, spare, hollow }", mid, true), (opts, Opts, OptsBuilder, "archive Opts { @optional ... }", opts, false) });
// the generated (seed-dependent) layouts
arch!(Gen, GenBuilder, gen, "archive Gen {}";
    structs { (s0, set_s0, G13, "s0", false), (s1, set_s1, G14, "s1", true), (s2, set_s2, E2, "s2", true) }
    vectors { (v0, set_v0, start_v0, G15, "v0", false), (v1, set_v1, start_v1, G16, "v1", true), (v2, set_v2, start_v2, E3, "v2", true), (v3, set_v3, start_v3, G11, "v3", false) }
    multis { (m0, start_m0, VarD, "m0", m0_index, Idx24, false), (m1, start_m1, VarA, "\tindex(m1)", m1_index, Idx64, true) }
    raws { (r0, set_r0, "r0", true) }
    subs {});
// large elements: crosses the internal 32 MiB buffers
arch!(Huge, HugeBuilder, huge, "archive Huge {}";
    structs { (one, set_one, G7, "one", true) }
    vectors { (big, set_big, start_big, G8, "big", false), (mid, set_mid, start_mid, G7, "mid", true) }
    multis { (mv, start_mv, VarC, "mv", mv_index, Idx64, false), (wide, start_wide, VarS, "wide", wide_index, IdxBig, true) }
    raws { (raw, set_raw, "raw", true) }
    subs {});
// everything optional, wide indices
arch!(Wide, WideBuilder, wide, "archive Wide {}";
    structs {}
    vectors { (small, set_small, start_small, G9, "small", true), (mid, set_mid, start_mid, G1, "mid", true) }
    multis { (w33, start_w33, VarS, "w33", w33_index, Idx33, true), (w40, start_w40, VarB, "w40", w40_index, Idx40, true), (w64, start_w64, VarA, "w64", w64_index, Idx64, true) }
    raws { (raw, set_raw, "raw", true) }
    subs {});

pub fn small_archives() -> Vec<ArchDesc> {
    vec![flat(), leaf(), opts(), mid(), root(), gen(), hollow()]
}

//
// random models
//
pub fn rand_item(vars: &[(u8, &'static dyn Codec)], rng: &mut Rng, max: usize) -> Item {
    let n = if rng.chance(1, 4) { 0 } else { rng.range(0, max) };
    (0..n)
        .map(|_| {
            let (t, c) = rng.pick(vars);
            (*t, c.rand(rng))
        })
        .collect()
}

pub fn rand_model(d: &ArchDesc, rng: &mut Rng, size: usize) -> Model {
    // optional resources: all, none or random
    let policy = rng.below(4);
    d.res
        .iter()
        .map(|r| {
            if r.opt {
                let present = match policy {
                    0 => true,
                    1 => false,
                    _ => rng.chance(1, 2),
                };
                if !present {
                    return None;
                }
            }
            Some(rand_resource(r, rng, size))
        })
        .collect()
}
pub fn rand_resource(r: &ResDesc, rng: &mut Rng, size: usize) -> ResVal {
    let len = match rng.below(5) {
        0 => 0,
        1 => 1,
        2 => rng.range(0, 4),
        _ => rng.range(0, size),
    };
    // now and then much more, as other code might be used from some size on
    let large = !cfg!(miri) && size > 3 && rng.chance(1, 100);
    let fitting = |rng: &mut Rng, each: usize, limit: usize| rng.outsized(3 << 20).min(limit) / each.max(1);
    match &r.kind {
        RKind::Vec(c) if large => {
            let n = fitting(rng, c.size(), 200_000);
            ResVal::Vec((0..n).map(|_| c.rand(rng)).collect())
        }
        RKind::Multi { vars, ibits, .. } if large && *ibits > 20 => {
            let each = vars.iter().map(|x| x.1.size() + 1).max().unwrap_or(1);
            let n = fitting(rng, each * 2, 200_000);
            ResVal::Multi((0..n).map(|_| rand_item(vars, rng, 4)).collect())
        }
        RKind::Raw if large => {
            let n = rng.outsized(4 << 20);
            ResVal::Raw(rng.bytes(n))
        }
        RKind::Struct(c) => ResVal::Struct(c.rand(rng)),
        RKind::Vec(c) => ResVal::Vec((0..len).map(|_| c.rand(rng)).collect()),
        RKind::Multi { vars, .. } => ResVal::Multi((0..len).map(|_| rand_item(vars, rng, 4)).collect()),
        RKind::Raw => ResVal::Raw(rng.bytes(len * 3 % 64)),
        RKind::Sub(s) => ResVal::Sub(rand_model(s, rng, size)),
    }
}

//
// independent encoder of the wire format
//
pub fn framed(payload: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(payload.len() + 16);
    let n = payload.len() as u64;
    for k in 0..8 {
        v.push((n >> (8 * k)) as u8);
    }
    v.extend_from_slice(payload);
    v.extend_from_slice(&[0; 8]);
    v
}

pub fn multi_payloads(vars: &[(u8, &'static dyn Codec)], isize: usize, ibits: usize, items: &[Item]) -> (Vec<u8>, Vec<u8>) {
    let mut data = vec![];
    let mut index = vec![];
    let push = |index: &mut Vec<u8>, off: usize| {
        let mut e = vec![0u8; isize];
        put_bits(&mut e, 0, ibits, off as u64);
        index.extend_from_slice(&e);
    };
    for it in items {
        push(&mut index, data.len());
        for (tag, v) in it {
            let c = vars.iter().find(|x| x.0 == *tag).unwrap().1;
            data.push(*tag);
            data.extend_from_slice(&c.encode(v));
        }
    }
    push(&mut index, data.len());
    (index, data)
}

pub type Map = BTreeMap<String, Vec<u8>>;

/// Every stored key and its exact bytes for a finished archive.
pub fn encode_archive(d: &ArchDesc, m: &Model, prefix: &str, out: &mut Map) {
    let mut put = |name: &str, schema: &str, payload: &[u8]| {
        out.insert(format!("{}{}", prefix, name), framed(payload));
        out.insert(format!("{}{}.schema", prefix, name), schema.as_bytes().to_vec());
    };
    put(&format!("{}.archive", d.name), d.schema, &[]);
    for (r, v) in d.res.iter().zip(m) {
        match (&r.kind, v) {
            (_, None) => {}
            (RKind::Struct(c), Some(ResVal::Struct(v))) => put(r.name, r.schema, &c.encode(v)),
            (RKind::Vec(c), Some(ResVal::Vec(v))) => {
                let mut p = vec![];
                for x in v {
                    p.extend_from_slice(&c.encode(x));
                }
                put(r.name, r.schema, &p)
            }
            (RKind::Multi { vars, isize, ibits }, Some(ResVal::Multi(v))) => {
                let (i, p) = multi_payloads(vars, *isize, *ibits, v);
                put(&format!("{}_index", r.name), &format!("index({})", r.schema), &i);
                put(r.name, r.schema, &p);
            }
            (RKind::Raw, Some(ResVal::Raw(v))) => put(r.name, r.schema, v),
            (RKind::Sub(_), Some(ResVal::Sub(_))) => {}
            _ => unreachable!(),
        }
    }
    for (r, v) in d.res.iter().zip(m) {
        if let (RKind::Sub(s), Some(ResVal::Sub(v))) = (&r.kind, v) {
            encode_archive(s, v, &format!("{}{}/", prefix, r.name), out);
        }
    }
}

//
// write plans
//
pub type Path = Vec<usize>;

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    /// Creates the (sub-)archive at this path (the empty path is the top level).
    Create(Path),
    Set(Path, usize),
    Start(Path),
    /// Appends elements/items lo..hi of the model.
    Push(Path, usize, usize),
    Close(Path),
    /// Writes the resource completely with other content; it is written again later.
    Draft(Path, u64),
    /// Begins a streaming resource and drops the writer unfinished; it is written later.
    Abandon(Path, u64),
}

pub fn at<'d, 'm>(d: &'d ArchDesc, m: &'m Model, path: &[usize]) -> (&'d ResDesc, &'m ResVal) {
    let r = &d.res[path[0]];
    let v = m[path[0]].as_ref().unwrap();
    if path.len() == 1 {
        return (r, v);
    }
    match (&r.kind, v) {
        (RKind::Sub(s), ResVal::Sub(sm)) => at(s, sm, &path[1..]),
        _ => unreachable!(),
    }
}

fn tracks(d: &ArchDesc, m: &Model, path: &Path, rng: &mut Rng, out: &mut Vec<(Path, Vec<Step>)>) {
    for (i, v) in m.iter().enumerate() {
        let v = match v {
            Some(v) => v,
            None => continue,
        };
        let mut p = path.clone();
        p.push(i);
        let r = &d.res[i];
        let stream = |n: usize, rng: &mut Rng| {
            let mut st = vec![Step::Start(p.clone())];
            let mut k = 0;
            while k < n {
                let h = (k + 1 + rng.below(5 + n / 50)).min(n);
                st.push(Step::Push(p.clone(), k, h));
                k = h;
            }
            st.push(Step::Close(p.clone()));
            st
        };
        match (&r.kind, v) {
            (RKind::Vec(_), ResVal::Vec(x)) if rng.chance(1, 2) => out.push((path.clone(), stream(x.len(), rng))),
            (RKind::Multi { .. }, ResVal::Multi(x)) => out.push((path.clone(), stream(x.len(), rng))),
            (RKind::Sub(s), ResVal::Sub(sm)) => {
                // the creation of the sub-archive belongs to the parent; its own tracks follow it
                out.push((path.clone(), vec![Step::Create(p.clone())]));
                tracks(s, sm, &p, rng, out);
            }
            _ => out.push((path.clone(), vec![Step::Set(p.clone(), rng.below(6))])),
        }
    }
}

/// A random interleaving of the writes of all resources.
pub fn rand_plan(d: &ArchDesc, m: &Model, rng: &mut Rng) -> Vec<Step> {
    let mut ts = vec![];
    tracks(d, m, &vec![], rng, &mut ts);
    let mut created: Vec<Path> = vec![vec![]];
    let mut plan = vec![Step::Create(vec![])];
    let mut pos = vec![0usize; ts.len()];
    let sticky = rng.chance(1, 2);
    let mut last: Option<usize> = None;
    loop {
        let ready: Vec<usize> = (0..ts.len()).filter(|k| pos[*k] < ts[*k].1.len() && created.contains(&ts[*k].0)).collect();
        if ready.is_empty() {
            break;
        }
        let k = match last {
            Some(k) if sticky && ready.contains(&k) && rng.chance(4, 5) => k,
            _ => *rng.pick(&ready),
        };
        last = Some(k);
        let s = ts[k].1[pos[k]].clone();
        pos[k] += 1;
        if let Step::Create(p) = &s {
            created.push(p.clone());
        }
        plan.push(s);
    }
    plan
}

/// The same, in which some resources are first written with other content.
pub fn rand_plan_rewriting(d: &ArchDesc, m: &Model, rng: &mut Rng) -> Vec<Step> {
    let mut plan = rand_plan(d, m, rng);
    if rng.chance(1, 2) {
        return plan;
    }
    let mut i = 1;
    while i < plan.len() {
        let p = match &plan[i] {
            Step::Set(p, _) | Step::Start(p) => p.clone(),
            _ => {
                i += 1;
                continue;
            }
        };
        let parent = Step::Create(p[..p.len() - 1].to_vec());
        let lo = plan.iter().position(|s| *s == parent).unwrap() + 1;
        let k = if rng.chance(1, 4) { rng.range(1, 2) } else { 0 };
        for _ in 0..k {
            let seed = rng.next();
            plan.insert(rng.range(lo, i), Step::Draft(p.clone(), seed));
        }
        i += k + 1;
    }
    plan
}

pub enum W {
    Vec(Box<dyn VecWriter>),
    Multi(Box<dyn MultiWriter>),
}

#[derive(Debug)]
pub enum StepErr {
    Io(io::Error),
    Rse(Rse),
}
impl StepErr {
    pub fn kind(&self) -> Option<io::ErrorKind> {
        match self {
            StepErr::Io(e) | StepErr::Rse(Rse::Io(e, _)) => Some(e.kind()),
            _ => None,
        }
    }
}

/// Executes plan steps through the generated builders. Writers borrow builders, so the writers are
/// declared (and dropped) first.
pub struct Exec<'m> {
    pub writers: BTreeMap<Path, W>,
    pub builders: BTreeMap<Path, Box<dyn BuilderDyn>>,
    pub desc: &'m ArchDesc,
    pub model: &'m Model,
    pub storage: St,
    /// elements successfully appended so far, per streaming resource
    pub pushed: BTreeMap<Path, usize>,
    pub mismatch: Option<String>,
    /// number of elements the failed or last step appended
    pub ops: u64,
}

impl<'m> Drop for Exec<'m> {
    fn drop(&mut self) {
        let w = std::mem::replace(&mut self.writers, BTreeMap::new());
        drop(w);
    }
}

impl<'m> Exec<'m> {
    pub fn new(desc: &'m ArchDesc, model: &'m Model, storage: St) -> Self {
        Exec { writers: BTreeMap::new(), builders: BTreeMap::new(), desc, model, storage, pushed: BTreeMap::new(), mismatch: None, ops: 0 }
    }
    fn builder(&self, p: &[usize]) -> (&'static dyn BuilderDyn, usize) {
        let b = &self.builders[&p[..p.len() - 1]];
        // Safety: builders are boxed, never removed while a writer exists, and dropped after the writers.
        let b: &'static dyn BuilderDyn = unsafe { std::mem::transmute::<&dyn BuilderDyn, &'static dyn BuilderDyn>(&**b) };
        (b, p[p.len() - 1])
    }
    pub fn step(&mut self, s: &Step) -> Result<(), StepErr> {
        self.ops += 1;
        match s {
            Step::Create(p) => {
                let b = if p.is_empty() {
                    (self.desc.create)(self.storage.clone()).map_err(StepErr::Rse)?
                } else {
                    let (b, i) = self.builder(p);
                    b.sub(i).map_err(StepErr::Rse)?
                };
                self.builders.insert(p.clone(), b);
            }
            Step::Set(p, how) => {
                let (b, i) = self.builder(p);
                match at(self.desc, self.model, p).1 {
                    ResVal::Struct(v) => b.set_struct(i, v, *how),
                    ResVal::Vec(v) => b.set_vector(i, v, *how),
                    ResVal::Raw(v) => b.set_raw(i, v),
                    _ => unreachable!(),
                }
                .map_err(StepErr::Io)?
            }
            Step::Draft(p, seed) => {
                let mut rng = Rng::new(*seed);
                let (b, i) = self.builder(p);
                match rand_resource(at(self.desc, self.model, p).0, &mut rng, 8) {
                    ResVal::Struct(v) => b.set_struct(i, &v, rng.below(6)).map_err(StepErr::Io)?,
                    ResVal::Raw(v) => b.set_raw(i, &v).map_err(StepErr::Io)?,
                    ResVal::Vec(v) if rng.chance(1, 2) => b.set_vector(i, &v, rng.below(6)).map_err(StepErr::Io)?,
                    ResVal::Vec(v) => {
                        let mut w = b.start_vector(i).map_err(StepErr::Io)?;
                        for x in &v {
                            w.push(x).map_err(StepErr::Io)?;
                        }
                        if w.close().map_err(StepErr::Rse)? != v {
                            self.mismatch = Some("view returned by close of a first version differs".into());
                        }
                    }
                    ResVal::Multi(v) => {
                        let mut w = b.start_multi(i).map_err(StepErr::Io)?;
                        for x in &v {
                            w.push(x).map_err(StepErr::Io)?;
                        }
                        if w.close().map_err(StepErr::Rse)? != v {
                            self.mismatch = Some("multivector view returned by close of a first version differs".into());
                        }
                    }
                    ResVal::Sub(_) => unreachable!(),
                }
            }
            Step::Abandon(p, seed) => {
                let mut rng = Rng::new(*seed);
                let (b, i) = self.builder(p);
                let v = rand_resource(at(self.desc, self.model, p).0, &mut rng, 6);
                let dropped = guard(|| -> Result<(), StepErr> {
                    match &v {
                        ResVal::Vec(v) => {
                            let mut w = b.start_vector(i).map_err(StepErr::Io)?;
                            for x in v {
                                w.push(x).map_err(StepErr::Io)?;
                            }
                        }
                        ResVal::Multi(v) => {
                            let mut w = b.start_multi(i).map_err(StepErr::Io)?;
                            for x in v {
                                w.push(x).map_err(StepErr::Io)?;
                            }
                        }
                        _ => unreachable!(),
                    }
                    Ok(())
                });
                match dropped {
                    Ok(Ok(())) => self.mismatch = Some("a writer dropped unfinished does not panic".into()),
                    Ok(Err(e)) => return Err(e),
                    Err(_) => (),
                }
            }
            Step::Start(p) => {
                let (b, i) = self.builder(p);
                let w = match at(self.desc, self.model, p).1 {
                    ResVal::Vec(_) => W::Vec(b.start_vector(i).map_err(StepErr::Io)?),
                    _ => W::Multi(b.start_multi(i).map_err(StepErr::Io)?),
                };
                self.pushed.insert(p.clone(), 0);
                self.writers.insert(p.clone(), w);
            }
            Step::Push(p, lo, hi) => {
                let v = at(self.desc, self.model, p).1;
                let w = match self.writers.get_mut(p) {
                    Some(w) => w,
                    None => return Ok(()),
                };
                let cnt = self.pushed.get_mut(p).unwrap();
                for k in *lo..*hi {
                    match (&mut *w, v) {
                        (W::Vec(w), ResVal::Vec(v)) => {
                            w.push(&v[k]).map_err(StepErr::Io)?;
                            *cnt += 1;
                            if w.len() != *cnt {
                                self.mismatch = Some(format!("streaming vector reports len {} after {} appends", w.len(), cnt));
                            }
                        }
                        (W::Multi(w), ResVal::Multi(v)) => {
                            w.push(&v[k]).map_err(StepErr::Io)?;
                            *cnt += 1;
                        }
                        _ => unreachable!(),
                    }
                }
            }
            Step::Close(p) => {
                let w = match self.writers.remove(p) {
                    Some(w) => w,
                    None => return Ok(()),
                };
                let n = self.pushed[p];
                match (w, at(self.desc, self.model, p).1) {
                    (W::Vec(w), ResVal::Vec(v)) => {
                        let got = w.close().map_err(StepErr::Rse)?;
                        if got[..] != v[..n] {
                            self.mismatch = Some(format!("view returned by close differs: got {} elements, appended {}", got.len(), n));
                        }
                    }
                    (W::Multi(w), ResVal::Multi(v)) => {
                        let got = w.close().map_err(StepErr::Rse)?;
                        if got[..] != v[..n] {
                            self.mismatch = Some(format!("multivector view returned by close differs: got {} items, appended {}", got.len(), n));
                        }
                    }
                    _ => unreachable!(),
                }
            }
        }
        Ok(())
    }
}

pub fn path_name(d: &ArchDesc, p: &[usize]) -> String {
    if p.is_empty() {
        return String::new();
    }
    let r = &d.res[p[0]];
    if p.len() == 1 {
        return r.name.to_string();
    }
    match &r.kind {
        RKind::Sub(s) => format!("{}/{}", r.name, path_name(s, &p[1..])),
        _ => unreachable!(),
    }
}

pub fn show_plan(d: &ArchDesc, plan: &[Step]) -> String {
    plan.iter()
        .map(|s| match s {
            Step::Create(p) => format!("create {}:{}", d.name, path_name(d, p)),
            Step::Set(p, h) => format!("set {} ({})", path_name(d, p), h),
            Step::Start(p) => format!("start {}", path_name(d, p)),
            Step::Push(p, a, b) => format!("push {}[{}..{}]", path_name(d, p), a, b),
            Step::Close(p) => format!("close {}", path_name(d, p)),
            Step::Abandon(p, s) => format!("begin {} and drop it ({})", path_name(d, p), s),
            Step::Draft(p, s) => format!("write {} differently ({})", path_name(d, p), s),
        })
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn summary(d: &ArchDesc, m: &Model) -> String {
    d.res
        .iter()
        .zip(m)
        .map(|(r, v)| match v {
            None => format!("{}:-", r.name),
            Some(ResVal::Struct(_)) => format!("{}:struct", r.name),
            Some(ResVal::Vec(v)) => format!("{}:vec[{}]", r.name, v.len()),
            Some(ResVal::Multi(v)) => format!("{}:multi[{} items, {} elements]", r.name, v.len(), v.iter().map(|x| x.len()).sum::<usize>()),
            Some(ResVal::Raw(v)) => format!("{}:raw[{}]", r.name, v.len()),
            Some(ResVal::Sub(v)) => match &r.kind {
                RKind::Sub(s) => format!("{}:{{{}}}", r.name, summary(s, v)),
                _ => unreachable!(),
            },
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// First difference between two models, for messages.
pub fn diff_models(d: &ArchDesc, got: &Model, want: &Model) -> Option<String> {
    for (i, r) in d.res.iter().enumerate() {
        if got[i] == want[i] {
            continue;
        }
        if let (RKind::Sub(s), Some(ResVal::Sub(a)), Some(ResVal::Sub(b))) = (&r.kind, &got[i], &want[i]) {
            return diff_models(s, a, b).map(|x| format!("{}/{}", r.name, x));
        }
        let sh = |v: &Option<ResVal>| {
            let mut s = format!("{:?}", v);
            if s.len() > 400 {
                s.truncate(s.char_indices().take(400).last().map(|x| x.0).unwrap_or(0));
                s.push_str("...");
            }
            s
        };
        return Some(format!("{}: got {} want {}", r.name, sh(&got[i]), sh(&want[i])));
    }
    None
}
