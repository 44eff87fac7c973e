//! In-memory stand-in for the `hdf5` crate with the storage seam of the simulator.
//! Only the part of the API up4 uses, with the same shapes and ownership rules.

use ndarray::{Array, Array1, Array2, ArrayD, ArrayView, Dimension, IxDyn, SliceInfoElem};
use simcore::Writer as Written;
use simcore::{op, world, Change, Class, Image, Kind, OnDisk, Ty, Value};
use std::path::Path;
use std::sync::Arc;

#[derive(Clone)]
pub struct Error(String);
impl std::fmt::Debug for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
impl From<&str> for Error {
    fn from(s: &str) -> Self {
        Error(s.to_string())
    }
}
impl From<String> for Error {
    fn from(s: String) -> Self {
        Error(s)
    }
}
pub type Result<T, E = Error> = std::result::Result<T, E>;

fn err<T>(s: impl Into<String>) -> Result<T> {
    Err(Error(s.into()))
}

/// Numeric types that can be stored.
pub trait H5Type: Copy + 'static {
    const TY: Ty;
    fn to_f64(self) -> f64;
    fn from_f64(x: f64) -> Self;
}
macro_rules! h5type {
    ($($t:ty => $ty:expr),*) => {$(impl H5Type for $t {
        const TY: Ty = $ty;
        fn to_f64(self) -> f64 { self as f64 }
        fn from_f64(x: f64) -> Self { x as $t }
    })*};
}
h5type!(u8 => Ty::U8, i8 => Ty::I32, u16 => Ty::U64, i16 => Ty::I32, u32 => Ty::U64,
        i32 => Ty::I32, u64 => Ty::U64, i64 => Ty::F64, usize => Ty::U64, isize => Ty::F64,
        f32 => Ty::F64, f64 => Ty::F64);

enum Backing {
    Reader(Arc<Image>),
    Writer(u64),
}

struct Shared {
    name: String,
    backing: Backing,
}

impl Shared {
    fn with_image<R>(&self, f: impl FnOnce(&Image) -> R) -> Option<R> {
        match &self.backing {
            Backing::Reader(img) => Some(f(img)),
            Backing::Writer(id) => world().writers.get(id).map(|w| f(&w.image)),
        }
    }
    fn change(&self, what: &str, change: Change) -> Result<()> {
        let lost = match op(Class::Write, what) {
            Ok(()) => false,
            Err(f) if f.kind == Kind::LostWrite => true,
            Err(f) => return err(format!("write of {} failed ({:?})", what, f.kind)),
        };
        let mut w = world();
        match &self.backing {
            Backing::Reader(_) => err("file is open read-only"),
            Backing::Writer(id) => {
                let Some(wr) = w.writers.get_mut(id) else {
                    return err("file is not open");
                };
                wr.image.apply(&change);
                wr.unflushed.push(change);
                wr.lost |= lost;
                Ok(())
            }
        }
    }
    fn flush(&self) -> Result<()> {
        let Backing::Writer(id) = &self.backing else { return Ok(()) };
        if let Err(f) = op(Class::Flush, &self.name) {
            let mut w = world();
            if let Some(wr) = w.writers.get_mut(id) {
                wr.lost = true;
            }
            return err(format!("flush failed ({:?})", f.kind));
        }
        let mut w = world();
        let Some(wr) = w.writers.get_mut(id) else { return err("file is not open") };
        if wr.lost {
            return err("flush failed: earlier write did not reach the disk");
        }
        wr.unflushed.clear();
        wr.durable = wr.image.clone();
        let (name, img) = (wr.name.clone(), Arc::new(wr.durable.clone()));
        w.disk.insert(name, OnDisk::Valid(img));
        Ok(())
    }
}

impl Shared {
    /// A file that is open until the last handle on it or its contents is gone.
    fn opened(w: &mut simcore::World, name: String, backing: Backing) -> Arc<Shared> {
        w.open += 1;
        w.open_peak = w.open_peak.max(w.open);
        Arc::new(Shared { name, backing })
    }
}

impl Drop for Shared {
    fn drop(&mut self) {
        {
            let mut w = world();
            w.open = w.open.saturating_sub(1);
        }
        // closing writes everything back; like H5Fclose in a destructor, it has
        // nobody to report a failure to
        if let Backing::Writer(id) = &self.backing {
            let mut w = world();
            if w.crashed {
                w.writers.remove(id);
                return;
            }
            let full = w.nospace;
            if let Some(wr) = w.writers.remove(id) {
                let clean = !wr.lost && (!full || wr.unflushed.is_empty());
                let state = if clean { OnDisk::Valid(Arc::new(wr.image)) } else { OnDisk::Broken };
                w.disk.insert(wr.name, state);
            }
        }
    }
}

/// A file or a group inside a file.
#[derive(Clone)]
pub struct Group {
    shared: Arc<Shared>,
    path: Option<String>,
}

#[derive(Clone)]
pub struct File {
    root: Group,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpenMode {
    Read,
    ReadWrite,
    Create,
    CreateExcl,
    Append,
}

impl std::ops::Deref for File {
    type Target = Group;
    fn deref(&self) -> &Group {
        &self.root
    }
}

impl File {
    pub fn open<P: AsRef<Path>>(filename: P) -> Result<File> {
        let name = filename.as_ref().to_string_lossy().to_string();
        if op(Class::Open, &name).is_err() {
            return err("open failed");
        }
        let mut w = world();
        match w.disk.get(&name) {
            None => err(format!("no such file {}", name)),
            Some(OnDisk::Broken) => err(format!("{} is not a valid HDF5 file", name)),
            Some(OnDisk::Valid(img)) => {
                let img = img.clone();
                Ok(File { root: Group { shared: Shared::opened(&mut w, name, Backing::Reader(img)), path: None } })
            }
        }
    }

    pub fn open_as<P: AsRef<Path>>(filename: P, mode: OpenMode) -> Result<File> {
        match mode {
            OpenMode::Read => File::open(filename),
            OpenMode::ReadWrite => File::open_rw(filename),
            OpenMode::Create => File::create(filename),
            OpenMode::CreateExcl => File::create_excl(filename),
            OpenMode::Append => File::append(filename),
        }
    }
    fn known(name: &str) -> bool {
        world().disk.contains_key(name)
    }
    pub fn create_excl<P: AsRef<Path>>(filename: P) -> Result<File> {
        if File::known(&filename.as_ref().to_string_lossy()) {
            return err("file exists");
        }
        File::create(filename)
    }
    pub fn append<P: AsRef<Path>>(filename: P) -> Result<File> {
        if File::known(&filename.as_ref().to_string_lossy()) {
            File::open_rw(filename)
        } else {
            File::create(filename)
        }
    }
    pub fn open_rw<P: AsRef<Path>>(filename: P) -> Result<File> {
        let name = filename.as_ref().to_string_lossy().to_string();
        if op(Class::Open, &name).is_err() {
            return err("open failed");
        }
        let mut w = world();
        w.rw.push(name.clone());
        let img = match w.disk.get(&name) {
            None => return err(format!("no such file {}", name)),
            Some(OnDisk::Broken) => return err(format!("{} is not a valid HDF5 file", name)),
            Some(OnDisk::Valid(img)) => (**img).clone(),
        };
        let id = w.next_id;
        w.next_id += 1;
        let wr = Written { name: name.clone(), image: img.clone(), durable: img, ..Written::default() };
        w.writers.insert(id, wr);
        Ok(File { root: Group { shared: Shared::opened(&mut w, name, Backing::Writer(id)), path: None } })
    }
    pub fn as_group(&self) -> Result<Group> {
        Ok(self.root.clone())
    }
    pub fn is_read_only(&self) -> bool {
        matches!(self.root.shared.backing, Backing::Reader(_))
    }

    pub fn create<P: AsRef<Path>>(filename: P) -> Result<File> {
        let name = filename.as_ref().to_string_lossy().to_string();
        if let Err(f) = op(Class::Create, &name) {
            return err(format!("create failed ({:?})", f.kind));
        }
        let mut w = world();
        let id = w.next_id;
        w.next_id += 1;
        w.disk.insert(name.clone(), OnDisk::Broken);
        w.writers.insert(id, Written { name: name.clone(), ..Written::default() });
        Ok(File { root: Group { shared: Shared::opened(&mut w, name, Backing::Writer(id)), path: None } })
    }

    pub fn flush(&self) -> Result<()> {
        self.root.shared.flush()
    }

    pub fn close(self) -> Result<()> {
        self.root.shared.flush()
    }
}

impl Group {
    pub fn filename(&self) -> String {
        self.shared.name.clone()
    }

    pub fn name(&self) -> String {
        format!("/{}", self.path.clone().unwrap_or_default())
    }

    fn label(&self, name: &str) -> String {
        match &self.path {
            None => format!("{}/{}", self.shared.name, name),
            Some(p) => format!("{}/{}/{}", self.shared.name, p, name),
        }
    }

    /// a name given as a path from the root of the file
    fn relative<'n>(&self, name: &'n str) -> &'n str {
        if self.path.is_none() { name.trim_matches('/') } else { name }
    }

    fn with_here<R>(&self, f: impl FnOnce(&Image) -> R) -> Option<R> {
        self.shared.with_image(|img| match &self.path {
            None => Some(f(img)),
            Some(p) => img.groups.get(p).map(f),
        })?
    }

    pub fn flush(&self) -> Result<()> {
        self.shared.flush()
    }

    pub fn file(&self) -> Result<File> {
        Ok(File { root: Group { shared: self.shared.clone(), path: None } })
    }
    pub fn is_valid(&self) -> bool {
        true
    }
    pub fn groups(&self) -> Result<Vec<Group>> {
        let names = self.list(|i| i.groups.keys().cloned().collect())?;
        names.iter().map(|n| self.group(n)).collect()
    }
    pub fn datasets(&self) -> Result<Vec<Dataset>> {
        let names = self.list(|i| i.data.keys().cloned().collect())?;
        names.iter().map(|n| self.dataset(n)).collect()
    }

    pub fn group(&self, name: &str) -> Result<Group> {
        let name = self.relative(name);
        if self.path.is_none() && name.is_empty() {
            return Ok(self.clone());
        }
        if op(Class::Meta, &self.label(name)).is_err() {
            return err("opening group failed");
        }
        if self.path.is_some() {
            return err("nested groups are not simulated");
        }
        if self.with_here(|i| i.groups.contains_key(name)) != Some(true) {
            return err(format!("no group {}", name));
        }
        Ok(Group { shared: self.shared.clone(), path: Some(name.to_string()) })
    }

    pub fn create_group(&self, name: &str) -> Result<Group> {
        if self.path.is_some() {
            return err("nested groups are not simulated");
        }
        if self.with_here(|i| i.groups.contains_key(name)) == Some(true) {
            return err(format!("group {} exists", name));
        }
        self.shared.change(&self.label(name), Change::Group(name.to_string()))?;
        Ok(Group { shared: self.shared.clone(), path: Some(name.to_string()) })
    }

    fn list(&self, f: impl FnOnce(&Image) -> Vec<String>) -> Result<Vec<String>> {
        if op(Class::Meta, &self.label("*")).is_err() {
            return err("listing failed");
        }
        self.with_here(f).ok_or_else(|| Error("no such group".into()))
    }
    pub fn member_names(&self) -> Result<Vec<String>> {
        self.list(|i| i.groups.keys().chain(i.data.keys()).cloned().collect())
    }
    pub fn attr_names(&self) -> Result<Vec<String>> {
        self.list(|i| i.attrs.keys().cloned().collect())
    }
    pub fn len(&self) -> u64 {
        self.member_names().map(|m| m.len() as u64).unwrap_or(0)
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn link_exists(&self, name: &str) -> bool {
        self.member_names().map(|m| m.iter().any(|x| x == name)).unwrap_or(false)
    }

    pub fn dataset(&self, name: &str) -> Result<Dataset> {
        let name = self.relative(name);
        if let (None, Some((g, d))) = (&self.path, name.split_once('/')) {
            return self.group(g)?.dataset(d);
        }
        let label = self.label(name);
        if op(Class::Meta, &label).is_err() {
            return err("opening dataset failed");
        }
        match self.with_here(|i| i.data.get(name).cloned()).flatten() {
            None => err(format!("no dataset {}", label)),
            Some(v) => Ok(Container {
                value: Some(v),
                label,
                owner: self.clone(),
                name: name.to_string(),
                attr: false,
                ty: Ty::F64,
            }),
        }
    }

    pub fn attr(&self, name: &str) -> Result<Attribute> {
        let label = self.label(&format!("@{}", name));
        if op(Class::Meta, &label).is_err() {
            return err("opening attribute failed");
        }
        match self.with_here(|i| i.attrs.get(name).cloned()).flatten() {
            None => err(format!("no attribute {}", label)),
            Some(v) => Ok(Container {
                value: Some(v),
                label,
                owner: self.clone(),
                name: name.to_string(),
                attr: true,
                ty: Ty::F64,
            }),
        }
    }

    pub fn new_dataset<T: H5Type>(&self) -> EmptyBuilder {
        EmptyBuilder { owner: self.clone(), attr: false, ty: T::TY, shape: vec![] }
    }
    pub fn new_attr<T: H5Type>(&self) -> EmptyBuilder {
        EmptyBuilder { owner: self.clone(), attr: true, ty: T::TY, shape: vec![] }
    }
    pub fn new_dataset_builder(&self) -> Builder {
        Builder { owner: self.clone(), attr: false }
    }
    pub fn new_attr_builder(&self) -> Builder {
        Builder { owner: self.clone(), attr: true }
    }

    fn exists(&self, name: &str, attr: bool) -> bool {
        self.with_here(|i| {
            if attr { i.attrs.contains_key(name) } else { i.data.contains_key(name) }
        }) == Some(true)
    }

    fn store(&self, name: &str, attr: bool, v: Value) -> Result<()> {
        if attr && self.path.is_some() {
            return err("attributes of groups are not simulated");
        }
        let label = self.label(&format!("{}{}", if attr { "@" } else { "" }, name));
        let change = if attr {
            Change::Attr(name.to_string(), v)
        } else {
            Change::Data(self.path.clone(), name.to_string(), v)
        };
        self.shared.change(&label, change)
    }
}

/// Shape of a new dataset.
pub trait Extents {
    fn dims(self) -> Vec<usize>;
}
impl Extents for () {
    fn dims(self) -> Vec<usize> {
        vec![]
    }
}
impl Extents for usize {
    fn dims(self) -> Vec<usize> {
        vec![self]
    }
}
impl Extents for (usize,) {
    fn dims(self) -> Vec<usize> {
        vec![self.0]
    }
}
impl Extents for (usize, usize) {
    fn dims(self) -> Vec<usize> {
        vec![self.0, self.1]
    }
}
impl Extents for Vec<usize> {
    fn dims(self) -> Vec<usize> {
        self
    }
}
impl Extents for &[usize] {
    fn dims(self) -> Vec<usize> {
        self.to_vec()
    }
}
impl<const N: usize> Extents for [usize; N] {
    fn dims(self) -> Vec<usize> {
        self.to_vec()
    }
}

/// settings of the storage layout, which the simulation has none of
macro_rules! layout {
    ($t:ty) => {
        impl $t {
            pub fn deflate(self, _level: u8) -> Self {
                self
            }
            pub fn shuffle(self) -> Self {
                self
            }
            pub fn chunk<E: Extents>(self, _dims: E) -> Self {
                self
            }
            pub fn no_chunk(self) -> Self {
                self
            }
            pub fn chunk_min_kb(self, _size: usize) -> Self {
                self
            }
            pub fn fletcher32(self) -> Self {
                self
            }
        }
    };
}
layout!(EmptyBuilder);
layout!(Builder);
layout!(DataBuilder);

/// Builder for a dataset or attribute without data.
pub struct EmptyBuilder {
    owner: Group,
    attr: bool,
    ty: Ty,
    shape: Vec<usize>,
}
impl EmptyBuilder {
    pub fn shape<E: Extents>(mut self, dims: E) -> Self {
        self.shape = dims.dims();
        self
    }
    pub fn create<'n>(&self, name: impl Into<&'n str>) -> Result<Container> {
        let name = name.into();
        if self.owner.exists(name, self.attr) {
            return err(format!("{} exists", name));
        }
        let n = self.shape.iter().product();
        self.owner.store(name, self.attr, Value::new(self.ty, self.shape.clone(), vec![0.0; n]))?;
        Ok(Container {
            value: None,
            label: self.owner.label(name),
            owner: self.owner.clone(),
            name: name.to_string(),
            attr: self.attr,
            ty: self.ty,
        })
    }
}

/// Builder for a dataset or attribute with data.
pub struct Builder {
    owner: Group,
    attr: bool,
}
impl Builder {
    pub fn empty<T: H5Type>(self) -> EmptyBuilder {
        EmptyBuilder { owner: self.owner, attr: self.attr, ty: T::TY, shape: vec![] }
    }
    pub fn with_data<'d, A, T, D>(self, data: A) -> DataBuilder
    where
        A: Into<ArrayView<'d, T, D>>,
        T: H5Type,
        D: Dimension,
    {
        let view: ArrayView<'d, T, D> = data.into();
        let shape = view.shape().to_vec();
        let data = view.iter().map(|x| x.to_f64()).collect();
        DataBuilder { owner: self.owner, attr: self.attr, value: Value::new(T::TY, shape, data) }
    }
}

pub struct DataBuilder {
    owner: Group,
    attr: bool,
    value: Value,
}
impl DataBuilder {
    pub fn create<'n>(&self, name: impl Into<&'n str>) -> Result<Container> {
        let name = name.into();
        if self.owner.exists(name, self.attr) {
            return err(format!("{} exists", name));
        }
        self.owner.store(name, self.attr, self.value.clone())?;
        Ok(Container {
            value: None,
            label: self.owner.label(name),
            owner: self.owner.clone(),
            name: name.to_string(),
            attr: self.attr,
            ty: self.value.ty,
        })
    }
}

pub type DatasetBuilder = Builder;
pub type AttributeBuilder = Builder;
pub type DatasetBuilderEmpty = EmptyBuilder;
pub type AttributeBuilderEmpty = EmptyBuilder;
pub type DatasetBuilderData = DataBuilder;
pub type AttributeBuilderData = DataBuilder;
pub type Reader<'a> = &'a Container;
pub type Writer<'a> = &'a Container;

/// A dataset or an attribute.
#[derive(Clone)]
pub struct Container {
    value: Option<Value>,
    label: String,
    owner: Group,
    name: String,
    attr: bool,
    ty: Ty,
}
pub type Dataset = Container;
pub type Attribute = Container;

/// A selection that lies within a dataset.
fn checked(sel: &[SliceInfoElem], shape: &[usize]) -> Result<Vec<SliceInfoElem>> {
    let at: Vec<SliceInfoElem> = sel.to_vec();
    if at.len() != shape.len() {
        return err("selection and dataset differ in dimension");
    }
    for (e, n) in at.iter().zip(shape) {
        let ok = match e {
            SliceInfoElem::Slice { start, end, .. } => {
                *start >= 0 && (*start as usize) <= *n && end.map_or(true, |e| e >= 0 && e as usize <= *n)
            }
            SliceInfoElem::Index(i) => *i >= 0 && (*i as usize) < *n,
            SliceInfoElem::NewAxis => false,
        };
        if !ok {
            return err("selection beyond the dataset");
        }
    }
    Ok(at)
}

impl Container {
    fn fetch(&self) -> Result<Value> {
        if op(Class::Read, &self.label).is_err() {
            return err(format!("reading {} failed", self.label));
        }
        let v = match &self.value {
            Some(v) => v.clone(),
            None => {
                let got = self.owner.with_here(|i| {
                    if self.attr { i.attrs.get(&self.name) } else { i.data.get(&self.name) }.cloned()
                });
                match got.flatten() {
                    Some(v) => v,
                    None => return err("no such object"),
                }
            }
        };
        let mut w = world();
        if !w.quiet {
            if !w.uncounted {
                *w.reads.entry(self.label.clone()).or_insert(0) += 1;
            }
        }
        drop(w);
        Ok(v)
    }

    fn dims(&self) -> Vec<usize> {
        match &self.value {
            Some(v) => v.shape.clone(),
            None => self
                .owner
                .with_here(|i| {
                    let m = if self.attr { &i.attrs } else { &i.data };
                    m.get(&self.name).map(|v| v.shape.clone())
                })
                .flatten()
                .unwrap_or_default(),
        }
    }
    pub fn shape(&self) -> Vec<usize> {
        self.dims()
    }
    pub fn ndim(&self) -> usize {
        self.dims().len()
    }
    pub fn size(&self) -> usize {
        self.dims().iter().product()
    }
    pub fn is_scalar(&self) -> bool {
        self.ndim() == 0
    }
    pub fn name(&self) -> String {
        match &self.owner.path {
            None => format!("/{}", self.name),
            Some(p) => format!("/{}/{}", p, self.name),
        }
    }
    pub fn filename(&self) -> String {
        self.owner.filename()
    }

    pub fn as_reader(&self) -> Reader<'_> {
        self
    }
    pub fn as_writer(&self) -> Writer<'_> {
        self
    }

    /// Write a part of the dataset, which the rest of it survives.
    pub fn write_slice<'d, A, I, T, D>(&self, data: A, sel: I) -> Result<()>
    where
        A: Into<ArrayView<'d, T, D>>,
        I: AsRef<[SliceInfoElem]>,
        T: H5Type,
        D: Dimension,
    {
        let view: ArrayView<'d, T, D> = data.into();
        let now = self.owner.with_here(|i| {
            if self.attr { i.attrs.get(&self.name) } else { i.data.get(&self.name) }.cloned()
        });
        let Some(v) = now.flatten() else { return err("no such object") };
        let mut all = ArrayD::from_shape_vec(IxDyn(&v.shape), v.data.to_vec()).map_err(|e| Error(e.to_string()))?;
        let at = checked(sel.as_ref(), all.shape())?;
        let mut part = all.slice_mut(&at[..]);
        if part.shape() != view.shape() {
            return err("the shapes differ");
        }
        for (to, from) in part.iter_mut().zip(view.iter()) {
            *to = from.to_f64();
        }
        let flat = all.iter().copied().collect();
        self.owner.store(&self.name, self.attr, Value::new(v.ty, v.shape.clone(), flat))
    }

    pub fn write<'d, A, T, D>(&self, data: A) -> Result<()>
    where
        A: Into<ArrayView<'d, T, D>>,
        T: H5Type,
        D: Dimension,
    {
        let view: ArrayView<'d, T, D> = data.into();
        if view.shape() != &self.dims()[..] {
            return err("the shapes differ");
        }
        let flat = view.iter().map(|x| x.to_f64()).collect();
        self.owner.store(&self.name, self.attr, Value::new(self.ty, self.dims(), flat))
    }
    pub fn write_raw<'d, A, T>(&self, data: A) -> Result<()>
    where
        A: Into<ArrayView<'d, T, ndarray::Ix1>>,
        T: H5Type,
    {
        let view: ArrayView<'d, T, ndarray::Ix1> = data.into();
        if view.len() != self.size() {
            return err("the lengths differ");
        }
        let flat = view.iter().map(|x| x.to_f64()).collect();
        self.owner.store(&self.name, self.attr, Value::new(self.ty, self.dims(), flat))
    }
    pub fn read_dyn<T: H5Type>(&self) -> Result<ArrayD<T>> {
        let v = self.fetch()?;
        ArrayD::from_shape_vec(IxDyn(&v.shape), v.data.iter().map(|x| T::from_f64(*x)).collect())
            .map_err(|e| Error(e.to_string()))
    }
    pub fn read<T: H5Type, D: Dimension>(&self) -> Result<Array<T, D>> {
        self.read_dyn::<T>()?.into_dimensionality::<D>().map_err(|e| Error(e.to_string()))
    }
    pub fn read_slice<T: H5Type, I, D: Dimension>(&self, sel: I) -> Result<Array<T, D>>
    where
        I: AsRef<[SliceInfoElem]>,
    {
        let all = self.read_dyn::<T>()?;
        let at = checked(sel.as_ref(), all.shape())?;
        let part = all.slice(&at[..]).to_owned();
        part.into_dimensionality::<D>().map_err(|e| Error(e.to_string()))
    }
    pub fn read_slice_1d<T: H5Type, I: AsRef<[SliceInfoElem]>>(&self, sel: I) -> Result<Array1<T>> {
        self.read_slice::<T, I, ndarray::Ix1>(sel)
    }
    pub fn read_slice_2d<T: H5Type, I: AsRef<[SliceInfoElem]>>(&self, sel: I) -> Result<Array2<T>> {
        self.read_slice::<T, I, ndarray::Ix2>(sel)
    }

    pub fn write_scalar<T: H5Type>(&self, x: &T) -> Result<()> {
        self.owner.store(&self.name, self.attr, Value::new(self.ty, vec![], vec![x.to_f64()]))
    }

    pub fn read_scalar<T: H5Type>(&self) -> Result<T> {
        let v = self.fetch()?;
        if !v.shape.is_empty() {
            return err("not a scalar");
        }
        Ok(T::from_f64(v.data[0]))
    }
    pub fn read_raw<T: H5Type>(&self) -> Result<Vec<T>> {
        Ok(self.fetch()?.data.iter().map(|x| T::from_f64(*x)).collect())
    }
    pub fn read_1d<T: H5Type>(&self) -> Result<Array1<T>> {
        let v = self.fetch()?;
        if v.shape.len() != 1 {
            return err(format!("{} is not one-dimensional", self.label));
        }
        Ok(v.data.iter().map(|x| T::from_f64(*x)).collect())
    }
    pub fn read_2d<T: H5Type>(&self) -> Result<Array2<T>> {
        let v = self.fetch()?;
        if v.shape.len() != 2 {
            return err(format!("{} is not two-dimensional", self.label));
        }
        Array2::from_shape_vec(
            (v.shape[0], v.shape[1]),
            v.data.iter().map(|x| T::from_f64(*x)).collect(),
        )
        .map_err(|e| Error(e.to_string()))
    }
}
