//! Abstract syntax of what a Microsoft symbol denotes. Shared by the generator (`gen`), the
//! reference mangler (`mangle`), the reference demangler (`refdem`) and the reference printer
//! (`print`). Nothing here is derived from the code under test's node types.

use std::rc::Rc;

pub const CONST: u8 = 1;
pub const VOLATILE: u8 = 2;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Tag {
    Union,
    Struct,
    Class,
    Enum,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Aff {
    Ptr,
    LRef,
    RRef,
}

/// (mangled, printed)
pub const PRIMS: &[(&str, &str)] = &[
    ("H", "int"),
    ("X", "void"),
    ("D", "char"),
    ("C", "signed char"),
    ("E", "unsigned char"),
    ("F", "short"),
    ("G", "unsigned short"),
    ("I", "unsigned int"),
    ("J", "long"),
    ("K", "unsigned long"),
    ("M", "float"),
    ("N", "double"),
    ("O", "long double"),
    ("_N", "bool"),
    ("_J", "__int64"),
    ("_K", "unsigned __int64"),
    ("_W", "wchar_t"),
    ("_Q", "char8_t"),
    ("_S", "char16_t"),
    ("_U", "char32_t"),
    ("_P", "auto"),
    ("_T", "decltype(auto)"),
    ("$$T", "std::nullptr_t"),
];
pub const VOID: usize = 1;

/// (mangled letters, keyword without leading underscores)
pub const CCS: &[(&[char], &str)] = &[
    (&['A', 'B'], "cdecl"),
    (&['C', 'D'], "pascal"),
    (&['E', 'F'], "thiscall"),
    (&['G', 'H'], "stdcall"),
    (&['I', 'J'], "fastcall"),
    (&['M', 'N'], "clrcall"),
    (&['O', 'P'], "eabi"),
    (&['Q'], "vectorcall"),
    (&['S'], "swift"),
    (&['W'], "swiftasync"),
];
pub const CC_SWIFT: usize = 8;

/// (mangled after the leading '?', printed)
pub const OPS: &[(&str, &str)] = &[
    ("2", "operator new"),
    ("3", "operator delete"),
    ("4", "operator="),
    ("5", "operator>>"),
    ("6", "operator<<"),
    ("7", "operator!"),
    ("8", "operator=="),
    ("9", "operator!="),
    ("A", "operator[]"),
    ("C", "operator->"),
    ("D", "operator*"),
    ("E", "operator++"),
    ("F", "operator--"),
    ("G", "operator-"),
    ("H", "operator+"),
    ("I", "operator&"),
    ("J", "operator->*"),
    ("K", "operator/"),
    ("L", "operator%"),
    ("M", "operator<"),
    ("N", "operator<="),
    ("O", "operator>"),
    ("P", "operator>="),
    ("Q", "operator,"),
    ("R", "operator()"),
    ("S", "operator~"),
    ("T", "operator^"),
    ("U", "operator|"),
    ("V", "operator&&"),
    ("W", "operator||"),
    ("X", "operator*="),
    ("Y", "operator+="),
    ("Z", "operator-="),
    ("_0", "operator/="),
    ("_1", "operator%="),
    ("_2", "operator>>="),
    ("_3", "operator<<="),
    ("_4", "operator&="),
    ("_5", "operator|="),
    ("_6", "operator^="),
    ("_D", "`vbase dtor'"),
    ("_E", "`vector deleting dtor'"),
    ("_F", "`default constructor closure'"),
    ("_G", "`scalar deleting dtor'"),
    ("_H", "`vector ctor iterator'"),
    ("_I", "`vector dtor iterator'"),
    ("_J", "`vector vbase ctor iterator'"),
    ("_K", "`virtual displacement map'"),
    ("_L", "`eh vector ctor iterator'"),
    ("_M", "`eh vector dtor iterator'"),
    ("_N", "`eh vector vbase ctor iterator'"),
    ("_O", "`copy ctor closure'"),
    ("_T", "`local vftable ctor closure'"),
    ("_U", "operator new[]"),
    ("_V", "operator delete[]"),
    ("__A", "`managed vector ctor iterator'"),
    ("__B", "`managed vector dtor iterator'"),
    ("__C", "`EH vector copy ctor iterator'"),
    ("__D", "`EH vector vbase copy ctor iterator'"),
    ("__G", "`vector copy ctor iterator'"),
    ("__H", "`vector vbase copy constructor iterator'"),
    ("__I", "`managed vector vbase copy constructor iterator'"),
    ("__L", "operator co_await"),
    ("__M", "operator<=>"),
];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Prim(usize, u8),
    Tag(Tag, Name, u8),
    Ptr(Rc<PtrTy>),
    Arr(Rc<ArrTy>),
    Fun(Rc<FnTy>),
    /// `?name@`: a type known by nothing but its name
    Custom(Piece, u8),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct PtrTy {
    pub aff: Aff,
    pub cv: u8,
    pub p64: bool,
    pub restrict: bool,
    pub unaligned: bool,
    pub class: Option<Name>,
    pub pointee: Ty,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct ArrTy {
    pub dims: Vec<u64>,
    pub cv: u8,
    pub elem: Ty,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum RefQ {
    None,
    L,
    R,
}

/// Qualifiers of the object a member function is called on.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct This {
    pub cv: u8,
    pub p64: bool,
    pub restrict: bool,
    pub unaligned: bool,
    pub refq: RefQ,
}

pub const NO_THIS: This = This { cv: 0, p64: false, restrict: false, unaligned: false, refq: RefQ::None };

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct FnTy {
    /// whether the encoding has a place for the qualifiers of the object
    pub member: bool,
    pub this: This,
    /// None: a letter which stands for no known convention
    pub cc: Option<usize>,
    /// None: constructors and destructors
    pub ret: Option<Ty>,
    /// None: (void)
    pub params: Option<Vec<Ty>>,
    pub variadic: bool,
    pub noexcept: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Piece {
    Id(Rc<str>),
    Tmpl(Rc<(Piece, Vec<TArg>)>),
    Anon(Rc<str>),
    Local(u64, Rc<Sym>),
    Op(usize),
    Lit(Rc<str>),
    Ctor,
    Dtor,
    Conv,
    Fixed(&'static str),
    Guard(bool, u64),
    Vcall(u64),
    BaseDesc(u64, i64, u64, u64),
    /// dynamic initializer (false) / atexit destructor (true)
    DynVar(bool, Rc<Sym>),
    DynName(bool, Name),
}

/// innermost component first, as mangled
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Name(pub Rc<Vec<Piece>>);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TArg {
    Ty(Ty),
    /// $$C: a type with top level qualifiers
    Qual(u8, Ty),
    /// $$B: an array type
    Arr(Ty),
    /// $$Y: an alias template
    Alias(Name),
    /// $0
    Int(u64, bool),
    /// $1: the address of a symbol
    Addr(Option<Rc<Sym>>),
    /// $H $I $J: a member function pointer of a class with multiple/virtual/unspecified inheritance
    MemFn(Option<Rc<Sym>>, Vec<i64>),
    /// $E
    Ref(Rc<Sym>),
    /// $F $G: data member pointer
    MemData(Vec<i64>),
    /// $M: auto, with the deduced type and one of Int/Addr/MemFn/MemData
    Auto(Ty, Rc<TArg>),
    /// separators of parameter packs, 0..4
    Pack(usize),
}

pub const PACKS: &[&str] = &["$$V", "$S", "$$$V", "$$Z"];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Access {
    None,
    Private,
    Protected,
    Public,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Thunk {
    None,
    Adjustor(u32),
    VtorDisp(i32, u32),
    VtorDispEx(i32, i32, i32, u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct FnClass {
    pub access: Access,
    pub is_static: bool,
    pub is_virtual: bool,
    pub global: bool,
    pub extern_c: bool,
    pub thunk: Thunk,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Sym {
    /// storage class 0..=4
    Var(Name, u8, Ty),
    Fn(Name, FnClass, Rc<FnTy>),
    /// a function whose parameters weren't mangled (code 9)
    NoParams(Name, bool),
    /// vftable and friends: name, qualifiers, target
    Table(Name, u8, Option<Name>),
    Guard(Name),
    Str(Rc<StrLit>),
    TypeName(Ty),
    Md5(Rc<str>),
    /// RTTI records: a name without a type
    Untyped(Name),
    /// ??_R0
    TypeDesc(Ty),
    Vcall(Name, Option<usize>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct StrLit {
    /// 1: narrow, 2: char16_t, 4: char32_t, 0: wchar_t
    pub kind: u8,
    /// already without the terminator when there's one to remove
    pub chars: Vec<u32>,
    pub truncated: bool,
}

impl Name {
    pub fn new(v: Vec<Piece>) -> Self {
        Name(Rc::new(v))
    }
    pub fn one(p: Piece) -> Self {
        Name(Rc::new(vec![p]))
    }
    pub fn leaf(&self) -> &Piece {
        &self.0[0]
    }
}

pub fn id(s: &str) -> Piece {
    Piece::Id(Rc::from(s))
}

impl Sym {
    /// the name by which the symbol could be referred to
    pub fn name(&self) -> Option<&Name> {
        match self {
            Sym::Var(n, ..)
            | Sym::Fn(n, ..)
            | Sym::NoParams(n, ..)
            | Sym::Table(n, ..)
            | Sym::Guard(n)
            | Sym::Untyped(n)
            | Sym::Vcall(n, _) => Some(n),
            Sym::Str(_) | Sym::TypeName(_) | Sym::Md5(_) | Sym::TypeDesc(_) => None,
        }
    }
}

/// the piece with its template arguments removed
pub fn base_of(p: &Piece) -> &Piece {
    match p {
        Piece::Tmpl(t) => base_of(&t.0),
        p => p,
    }
}
