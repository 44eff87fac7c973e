//! Stand-in for `vtkio`: VTK documents live in a registry keyed by path, so that
//! importing them crosses the simulator's I/O seam.

use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Debug, Clone)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}

static REGISTRY: Mutex<BTreeMap<String, model::Vtk>> = Mutex::new(BTreeMap::new());

pub fn sim_clear() {
    REGISTRY.lock().unwrap_or_else(|e| e.into_inner()).clear();
}
pub fn sim_put(path: &str, doc: model::Vtk) {
    REGISTRY.lock().unwrap_or_else(|e| e.into_inner()).insert(path.to_string(), doc);
}

pub use model::Vtk;

pub mod model {
    pub use super::Error;
    use super::REGISTRY;
    use simcore::{op, Class};
    use std::path::{Path, PathBuf};

    pub trait Scalar: Copy + 'static {
        fn from_f64(x: f64) -> Option<Self>;
    }
    macro_rules! int_scalar {
        ($($t:ty),*) => {$(impl Scalar for $t {
            fn from_f64(x: f64) -> Option<Self> {
                if x.trunc() >= <$t>::MIN as f64 && x.trunc() <= <$t>::MAX as f64 { Some(x as $t) } else { None }
            }
        })*};
    }
    int_scalar!(u8, i8, u16, i16, u32, i32, u64, i64);
    impl Scalar for f32 {
        fn from_f64(x: f64) -> Option<Self> {
            Some(x as f32)
        }
    }
    impl Scalar for f64 {
        fn from_f64(x: f64) -> Option<Self> {
            Some(x)
        }
    }

    /// Type-erased buffer.
    #[derive(Debug, Clone, PartialEq, Default)]
    pub struct IOBuffer(pub Vec<f64>);
    impl IOBuffer {
        pub fn cast_into<T: Scalar>(self) -> Option<Vec<T>> {
            self.0.into_iter().map(T::from_f64).collect()
        }
        pub fn into_vec<T: Scalar>(self) -> Option<Vec<T>> {
            self.cast_into()
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
    }

    #[derive(Debug, Clone, Default)]
    pub struct DataArrayBase {
        pub name: String,
        pub num_comp: u32,
        pub data: IOBuffer,
    }
    pub type DataArray = DataArrayBase;
    pub type FieldArray = DataArrayBase;

    #[derive(Debug, Clone)]
    pub enum Attribute {
        DataArray(DataArrayBase),
        Field { name: String, data_array: Vec<DataArrayBase> },
    }
    impl Attribute {
        pub fn name(&self) -> &str {
            match self {
                Attribute::DataArray(d) => &d.name,
                Attribute::Field { name, .. } => name,
            }
        }
    }

    #[derive(Debug, Clone, Default)]
    pub struct Attributes {
        pub point: Vec<Attribute>,
        pub cell: Vec<Attribute>,
    }

    #[derive(Debug, Clone, Default)]
    pub struct PolyDataPiece {
        pub points: IOBuffer,
        pub data: Attributes,
    }
    #[derive(Debug, Clone, Default)]
    pub struct UnstructuredGridPiece {
        pub points: IOBuffer,
        pub data: Attributes,
    }

    #[derive(Debug, Clone)]
    pub enum Piece<P> {
        Inline(Box<P>),
    }
    pub trait PieceData: Clone {}
    impl PieceData for PolyDataPiece {}
    impl PieceData for UnstructuredGridPiece {}
    impl<P: Clone> Piece<P> {
        pub fn into_loaded_piece_data(self, source: Option<&Path>) -> Result<P, Error> {
            self.load_piece_data(source)
        }
        pub fn load_piece_data(&self, _source: Option<&Path>) -> Result<P, Error> {
            if op(Class::Vtk, "piece").is_err() {
                return Err(Error("loading piece failed".into()));
            }
            let Piece::Inline(p) = self;
            Ok((**p).clone())
        }
    }

    #[derive(Debug, Clone)]
    pub enum DataSet {
        PolyData { meta: Option<()>, pieces: Vec<Piece<PolyDataPiece>> },
        UnstructuredGrid { meta: Option<()>, pieces: Vec<Piece<UnstructuredGridPiece>> },
    }

    #[derive(Debug, Clone)]
    pub struct Vtk {
        pub title: String,
        pub data: DataSet,
        pub file_path: Option<PathBuf>,
    }

    impl Vtk {
        pub fn import(path: impl AsRef<Path>) -> Result<Vtk, Error> {
            let name = path.as_ref().to_string_lossy().to_string();
            let base = name.rsplit('/').next().unwrap_or("").to_string();
            if op(Class::Vtk, &base).is_err() {
                return Err(Error(format!("import of {} failed", name)));
            }
            REGISTRY
                .lock()
                .unwrap_or_else(|e| e.into_inner())
                .get(&name)
                .cloned()
                .ok_or_else(|| Error(format!("no such file {}", name)))
        }
        pub fn load_all_pieces(&mut self) -> Result<(), Error> {
            if op(Class::Vtk, "pieces").is_err() {
                return Err(Error("loading pieces failed".into()));
            }
            Ok(())
        }
    }
}
