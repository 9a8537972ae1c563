//! LLVM's numbering (see `LLVMBitCodes.h`, `Attributes.td` and `CallingConv.h`).

use llvm_mapper::block::EnumAttribute as E;
use llvm_support::{AttributeId as I, CallingConvention as CC, Linkage as L};

pub const ATTRIBUTES: [(u64, I); 86] = [
    (1, I::Alignment),
    (2, I::AlwaysInline),
    (3, I::ByVal),
    (4, I::InlineHint),
    (5, I::InReg),
    (6, I::MinSize),
    (7, I::Naked),
    (8, I::Nest),
    (9, I::NoAlias),
    (10, I::NoBuiltin),
    (11, I::NoCapture),
    (12, I::NoDuplicate),
    (13, I::NoImplicitFloat),
    (14, I::NoInline),
    (15, I::NonLazyBind),
    (16, I::NoRedZone),
    (17, I::NoReturn),
    (18, I::NoUnwind),
    (19, I::OptimizeForSize),
    (20, I::ReadNone),
    (21, I::ReadOnly),
    (22, I::Returned),
    (23, I::ReturnsTwice),
    (24, I::SExt),
    (25, I::StackAlignment),
    (26, I::StackProtect),
    (27, I::StackProtectReq),
    (28, I::StackProtectStrong),
    (29, I::StructRet),
    (30, I::SanitizeAddress),
    (31, I::SanitizeThread),
    (32, I::SanitizeMemory),
    (33, I::UwTable),
    (34, I::ZExt),
    (35, I::Builtin),
    (36, I::Cold),
    (37, I::OptimizeNone),
    (38, I::InAlloca),
    (39, I::NonNull),
    (40, I::JumpTable),
    (41, I::Dereferenceable),
    (42, I::DereferenceableOrNull),
    (43, I::Convergent),
    (44, I::SafeStack),
    (45, I::ArgMemOnly),
    (46, I::SwiftSelf),
    (47, I::SwiftError),
    (48, I::NoRecurse),
    (49, I::InaccessiblememOnly),
    (50, I::InaccessiblememOrArgmemonly),
    (51, I::AllocSize),
    (52, I::WriteOnly),
    (53, I::Speculatable),
    (54, I::StrictFp),
    (55, I::SanitizeHwAddress),
    (56, I::NoCfCheck),
    (57, I::OptForFuzzing),
    (58, I::Shadowcallstack),
    (59, I::SpeculativeLoadHardening),
    (60, I::ImmArg),
    (61, I::WillReturn),
    (62, I::NoFree),
    (63, I::NoSync),
    (64, I::SanitizeMemtag),
    (65, I::Preallocated),
    (66, I::NoMerge),
    (67, I::NullPointerIsValid),
    (68, I::NoUndef),
    (69, I::ByRef),
    (70, I::MustProgress),
    (71, I::NoCallback),
    (72, I::Hot),
    (73, I::NoProfile),
    (74, I::VScaleRange),
    (75, I::SwiftAsync),
    (76, I::NoSanitizeCoverage),
    (77, I::ElementType),
    (78, I::DisableSanitizerInstrumentation),
    (79, I::NoSanitizeBounds),
    (80, I::AllocAlign),
    (81, I::AllocatedPointer),
    (82, I::AllocKind),
    (83, I::PresplitCoroutine),
    (84, I::FnretthunkExtern),
    (85, I::SkipProfile),
    (86, I::Memory),
];

/// The attributes without a value.
pub const ENUM_ATTRIBUTES: [(u64, E); 78] = [
    (2, E::AlwaysInline),
    (3, E::ByVal),
    (4, E::InlineHint),
    (5, E::InReg),
    (6, E::MinSize),
    (7, E::Naked),
    (8, E::Nest),
    (9, E::NoAlias),
    (10, E::NoBuiltin),
    (11, E::NoCapture),
    (12, E::NoDuplicate),
    (13, E::NoImplicitFloat),
    (14, E::NoInline),
    (15, E::NonLazyBind),
    (16, E::NoRedZone),
    (17, E::NoReturn),
    (18, E::NoUnwind),
    (19, E::OptimizeForSize),
    (20, E::ReadNone),
    (21, E::ReadOnly),
    (22, E::Returned),
    (23, E::ReturnsTwice),
    (24, E::SExt),
    (26, E::StackProtect),
    (27, E::StackProtectReq),
    (28, E::StackProtectStrong),
    (29, E::StructRet),
    (30, E::SanitizeAddress),
    (31, E::SanitizeThread),
    (32, E::SanitizeMemory),
    (33, E::UwTable),
    (34, E::ZExt),
    (35, E::Builtin),
    (36, E::Cold),
    (37, E::OptimizeNone),
    (38, E::InAlloca),
    (39, E::NonNull),
    (40, E::JumpTable),
    (43, E::Convergent),
    (44, E::SafeStack),
    (45, E::ArgMemOnly),
    (46, E::SwiftSelf),
    (47, E::SwiftError),
    (48, E::NoRecurse),
    (49, E::InaccessiblememOnly),
    (50, E::InaccessiblememOrArgmemonly),
    (52, E::WriteOnly),
    (53, E::Speculatable),
    (54, E::StrictFp),
    (55, E::SanitizeHwAddress),
    (56, E::NoCfCheck),
    (57, E::OptForFuzzing),
    (58, E::Shadowcallstack),
    (59, E::SpeculativeLoadHardening),
    (60, E::ImmArg),
    (61, E::WillReturn),
    (62, E::NoFree),
    (63, E::NoSync),
    (64, E::SanitizeMemtag),
    (65, E::Preallocated),
    (66, E::NoMerge),
    (67, E::NullPointerIsValid),
    (68, E::NoUndef),
    (69, E::ByRef),
    (70, E::MustProgress),
    (71, E::NoCallback),
    (72, E::Hot),
    (73, E::NoProfile),
    (75, E::SwiftAsync),
    (76, E::NoSanitizeCoverage),
    (77, E::ElementType),
    (78, E::DisableSanitizerInstrumentation),
    (79, E::NoSanitizeBounds),
    (80, E::AllocAlign),
    (81, E::AllocatedPointer),
    (83, E::PresplitCoroutine),
    (84, E::FnretthunkExtern),
    (85, E::SkipProfile),
];

pub const CALLING_CONVENTIONS: [(u64, CC); 42] = [
    (0, CC::C),
    (8, CC::Fast),
    (9, CC::Cold),
    (10, CC::GHC),
    (11, CC::HiPE),
    (12, CC::WebKitJS),
    (13, CC::AnyReg),
    (14, CC::PreserveMost),
    (15, CC::PreserveAll),
    (16, CC::Swift),
    (17, CC::CXXFASTTLS),
    (64, CC::X86Stdcall),
    (65, CC::X86Fastcall),
    (66, CC::ARMAPCS),
    (67, CC::ARMAAPCS),
    (68, CC::ARMAAPCSVFP),
    (69, CC::MSP430INTR),
    (70, CC::X86ThisCall),
    (71, CC::PTXKernel),
    (72, CC::PTXDevice),
    (75, CC::SPIRFUNC),
    (76, CC::SPIRKERNEL),
    (77, CC::IntelOCLBI),
    (78, CC::X8664SysV),
    (79, CC::Win64),
    (80, CC::X86VectorCall),
    (81, CC::HHVM),
    (82, CC::HHVMC),
    (83, CC::X86INTR),
    (84, CC::AVRINTR),
    (85, CC::AVRSIGNAL),
    (86, CC::AVRBUILTIN),
    (87, CC::AMDGPUVS),
    (88, CC::AMDGPUGS),
    (89, CC::AMDGPUPS),
    (90, CC::AMDGPUCS),
    (91, CC::AMDGPUKERNEL),
    (92, CC::X86RegCall),
    (93, CC::AMDGPUHS),
    (94, CC::MSP430BUILTIN),
    (95, CC::AMDGPULS),
    (96, CC::AMDGPUES),
];

/// Everything else is external.
pub const LINKAGES: [(u64, L); 20] = [
    (0, L::External),
    (1, L::WeakAny),
    (2, L::Appending),
    (3, L::Internal),
    (4, L::LinkOnceAny),
    (5, L::External),
    (6, L::External),
    (7, L::ExternalWeak),
    (8, L::Common),
    (9, L::Private),
    (10, L::WeakOdr),
    (11, L::LinkOnceOdr),
    (12, L::AvailableExternally),
    (13, L::Private),
    (14, L::Private),
    (15, L::External),
    (16, L::WeakAny),
    (17, L::WeakOdr),
    (18, L::LinkOnceAny),
    (19, L::LinkOnceOdr),
];
