//! Values assigned by the TPM 2.0 specification (Part 2) and the TCG algorithm registry.
use tpm2::Alg;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::*;

/// (type, name, value in the code, value in the specification)
pub fn table() -> Vec<(&'static str, &'static str, u64, u64)> {
    let mut t = Vec::new();
    macro_rules! k { ($ty:ident: $($n:ident $v:expr),*) => { $(t.push((stringify!($ty), stringify!($n), $ty::$n.0 as u64, $v));)* } }
    k! { TpmAlgId:
        RSA 0x0001, TDES 0x0003, SHA1 0x0004, HMAC 0x0005, AES 0x0006,
        MGF1 0x0007, KeyedHash 0x0008, XOR 0x000a, SHA256 0x000b, SHA384 0x000c,
        SHA512 0x000d, Null 0x0010, SM3256 0x0012, SM4 0x0013, RSASSA 0x0014,
        RSAES 0x0015, RSAPSS 0x0016, OAEP 0x0017, ECDSA 0x0018, ECDH 0x0019,
        ECDAA 0x001a, SM2 0x001b, ECSchnorr 0x001c, ECMQV 0x001d, KDF1SP80056A 0x0020,
        KDF2 0x0021, KDF1SP800108 0x0022, ECC 0x0023, SymCipher 0x0025, Camellia 0x0026,
        SHA3256 0x0027, SHA3384 0x0028, SHA3512 0x0029, CMAC 0x003f, CTR 0x0040,
        OFB 0x0041, CBC 0x0042, CFB 0x0043, ECB 0x0044 }
    k! { TpmEccCurve:
        None 0x0000, NistP192 0x0001, NistP224 0x0002, NistP256 0x0003, NistP384 0x0004,
        NistP521 0x0005, BNP256 0x0010, BNP638 0x0011, SM2P256 0x0020 }
    k! { TpmCc:
        NVUndefineSpaceSpecial 0x011f, EvictControl 0x0120, HierarchyControl 0x0121, NVUndefineSpace 0x0122, ChangeEPS 0x0124,
        ChangePPS 0x0125, Clear 0x0126, ClearControl 0x0127, ClockSet 0x0128, HierarchyChanegAuth 0x0129,
        NVDefineSpace 0x012a, PCRAllocate 0x012b, PCRSetAuthPolicy 0x012c, PPCommands 0x012d, SetPrimaryPolicy 0x012e,
        FieldUpgradeStart 0x012f, ClockRateAdjust 0x0130, CreatePrimary 0x0131, NVGlobalWriteLock 0x0132, GetCommandAuditDigest 0x0133,
        NVIncrement 0x0134, NVSetBits 0x0135, NVExtend 0x0136, NVWrite 0x0137, NVWriteLock 0x0138,
        DictionaryAttackLockReset 0x0139, DictionaryAttackParameters 0x013a, NVChangeAuth 0x013b, PCREvent 0x013c, PCRReset 0x013d,
        SequenceComplete 0x013e, SetAlgorithmSet 0x013f, SetCommandCodeAuditStatus 0x0140, FieldUpgradeData 0x0141, IncrementalSelfTest 0x0142,
        SelfTest 0x0143, Startup 0x0144, Shutdown 0x0145, StirRandom 0x0146, ActivateCredential 0x0147,
        Certify 0x0148, PolicyNV 0x0149, CertifyCreation 0x014a, Duplicate 0x014b, GetTime 0x014c,
        GetSessionAuditDigest 0x014d, NVRead 0x014e, NVReadLock 0x014f, ObjectChangeAuth 0x0150, PolicySecret 0x0151,
        Rewrap 0x0152, Create 0x0153, ECDHZGen 0x0154, MAC 0x0155, Import 0x0156,
        Load 0x0157, Quote 0x0158, RSADecrypt 0x0159, MACStart 0x015b, SequenceUpdate 0x015c,
        Sign 0x015d, Unseal 0x015e, PolicySigned 0x0160, ContextLoad 0x0161, ContextSave 0x0162,
        ECDHKeyGen 0x0163, EncryptDecrypt 0x0164, FlushContext 0x0165, LoadExternal 0x0167, MakeCredential 0x0168,
        NVReadPublic 0x0169, PolicyAuthorize 0x016a, PolicyAuthValue 0x016b, PolicyCommandCode 0x016c, PolicyCounterTimer 0x016d,
        PolicyCpHash 0x016e, PolicyLocality 0x016f, PolicyNameHash 0x0170, PolicyOR 0x0171, PolicyTicket 0x0172,
        ReadPublic 0x0173, RSAEncrypt 0x0174, StartAuthSession 0x0176, VerifySignature 0x0177, ECCParameters 0x0178,
        FirmwareRead 0x0179, GetCapability 0x017a, GetRandom 0x017b, GetTestResult 0x017c, Hash 0x017d,
        PCRRead 0x017e, PolicyPCR 0x017f, PolicyRestart 0x0180, ReadClock 0x0181, PCRExtend 0x0182,
        PCRSetAuthValue 0x0183, NVCertify 0x0184, EventSequenceComplete 0x0185, HashSequenceStart 0x0186, PolicyPhysicalPresence 0x0187,
        PolicyDuplicationSelect 0x0188, PolicyGetDigest 0x0189, TestParams 0x018a, Commit 0x018b, PolicyPassword 0x018c,
        ZGen2Phase 0x018d, ECEphemeral 0x018e, PolicyNvWritten 0x018f, PolicyTemplate 0x0190, CreateLoaded 0x0191,
        PolicyAuthorizeNV 0x0192, EncryptDecrypt2 0x0193, ACGetCapability 0x0194, ACSend 0x0195, PolicyACSendSelect 0x0196,
        CertifyX509 0x0197, ACTSetTimeout 0x0198 }
    k! { TpmRc:
        Success 0x0000, Initialize 0x0100, Failure 0x0101, Sequence 0x0103, Private 0x010b,
        Hmac 0x0119, Disabled 0x0120, Exclusive 0x0121, AuthType 0x0124, AuthMissing 0x0125,
        Policy 0x0126, Pcr 0x0127, PCRChanged 0x0128, Upgrade 0x012d, TooManyContexts 0x012e,
        AuthUnavailable 0x012f, Reboot 0x0130, Unbalanced 0x0131, CommandSize 0x0142, CommandCode 0x0143,
        AuthSize 0x0144, AuthContext 0x0145, NVRange 0x0146, NVSize 0x0147, NVLocked 0x0148,
        NVAuthorization 0x0149, NVUninitialized 0x014a, NVSpace 0x014b, NVDefined 0x014c, BadContext 0x0150,
        CPHash 0x0151, Parent 0x0152, NeedsTest 0x0153, NoResult 0x0154, Sensitive 0x0155,
        CAsymmetric 0x0081, Attributes 0x0082, Hash 0x0083, Value 0x0084, Hierarchy 0x0085,
        KeySize 0x0087, Mgf 0x0088, Mode 0x0089, Type 0x008a, Handle 0x008b,
        Kdf 0x008c, Range 0x008d, AuthFail 0x008e, Nonce 0x008f, PP 0x0090,
        Scheme 0x0092, Size 0x0095, Symmetric 0x0096, Tag 0x0097, Selector 0x0098,
        Insufficient 0x009a, Signature 0x009b, Key 0x009c, PolicyFail 0x009d, Integrity 0x009f,
        Ticket 0x00a0, ReservedBits 0x00a1, BadAuth 0x00a2, Expired 0x00a3, PolicyCC 0x00a4,
        Binding 0x00a5, Curve 0x00a6, ECCPoint 0x00a7, ContextGap 0x0901, ObjectMemory 0x0902,
        SessionMemory 0x0903, Memory 0x0904, SessionHandles 0x0905, ObjectHandles 0x0906, Locality 0x0907,
        Yielded 0x0908, Canceled 0x0909, Testing 0x090a, ReferenceH0 0x0910, ReferenceH1 0x0911,
        ReferenceH2 0x0912, ReferenceH3 0x0913, ReferenceH4 0x0914, ReferenceH5 0x0915, ReferenceH6 0x0916,
        ReferenceS0 0x0918, ReferenceS1 0x0919, ReferenceS2 0x091a, ReferenceS3 0x091b, ReferenceS4 0x091c,
        ReferenceS5 0x091d, ReferenceS6 0x091e, NVRate 0x0920, Lockout 0x0921, Retry 0x0922,
        NVUnavailable 0x0923 }
    k! { TpmEo:
        Eq 0x0000, Neq 0x0001, SignedGT 0x0002, UnsignedGT 0x0003, SignedLT 0x0004,
        UnsignedLT 0x0005, SignedGE 0x0006, UnsignedGE 0x0007, SignedLE 0x0008, UnsignedLE 0x0009,
        BitSet 0x000a, BitClear 0x000b }
    k! { TpmSt:
        RspCommand 0x00c4, Null 0x8000, NoSessions 0x8001, Sessions 0x8002, AttestNV 0x8014,
        AttestCommandAudit 0x8015, AttestSessionAudit 0x8016, AttestCertify 0x8017, AttestQuote 0x8018, AttestTime 0x8019,
        AttestCreation 0x801a, AttestNVDigest 0x801c, Creation 0x8021, Verified 0x8022, AuthSecret 0x8023,
        HashCheck 0x8024, AuthSigned 0x8025, FuManifest 0x8029 }
    k! { TpmSu:
        Clear 0x0000, State 0x0001 }
    k! { TpmSe:
        HMAC 0x0000, Policy 0x0001, Trial 0x0003 }
    k! { TpmCap:
        Algs 0x0000, Handles 0x0001, Commands 0x0002, PPCommands 0x0003, AuditCommands 0x0004,
        PCRs 0x0005, TPMProperties 0x0006, PCRProperties 0x0007, ECCCurves 0x0008, AuthPolicies 0x0009,
        ACT 0x000a }
    k! { TpmPt:
        FamilyIndicator 0x0100, Level 0x0101, Revision 0x0102, DayofYear 0x0103, Year 0x0104,
        Manufacturer 0x0105, VendorString1 0x0106, VendorString2 0x0107, VendorString3 0x0108, VendorString4 0x0109,
        VendorTPMType 0x010a, FirmwareVersion1 0x010b, FirmwareVersion2 0x010c, InputBuffer 0x010d, HRTransientMin 0x010e,
        HRPersistentMin 0x010f, HRLoadedMin 0x0110, ActiveSessionsMax 0x0111, PCRCount 0x0112, PCRSelectMin 0x0113,
        ContextGapMax 0x0114, NVCountersMax 0x0116, NVIndexMax 0x0117, Memory 0x0118, ClockUpdate 0x0119,
        ContextHash 0x011a, ContextSym 0x011b, ContextSymSize 0x011c, OrderlyCount 0x011d, MaxCommandSize 0x011e,
        MaxResponseSize 0x011f, MaxDigest 0x0120, MaxObjectContext 0x0121, MaxSessionContext 0x0122, PSFamilyIndicator 0x0123,
        PSLevel 0x0124, PSRevision 0x0125, PSDayOfYear 0x0126, PSYear 0x0127, SplitMax 0x0128,
        TotalCommands 0x0129, LibraryCommands 0x012a, VendorCommands 0x012b, NVBufferMax 0x012c, Modes 0x012d,
        MaxCapBuffer 0x012e, Permanent 0x0200, StartupClear 0x0201, HRNVIndex 0x0202, HRLoaded 0x0203,
        HRLoadedAvail 0x0204, HRActive 0x0205, HRActiveAvail 0x0206, HRTransientAvail 0x0207, HRPersistent 0x0208,
        HRPersistentAvail 0x0209, NVCounters 0x020a, NVCountersAvail 0x020b, AlgorithmSet 0x020c, LoadedCurves 0x020d,
        LockoutCounter 0x020e, MaxAuthFail 0x020f, LockoutInterval 0x0210, LockoutRecovery 0x0211, NVWriteRecovery 0x0212,
        AuditCounter0 0x0213, AuditCounter1 0x0214 }
    k! { TpmPtPcr:
        Save 0x0000, ExtendL0 0x0001, ResetL0 0x0002, ExtendL1 0x0003, ResetL1 0x0004,
        ExtendL2 0x0005, ResetL2 0x0006, ExtendL3 0x0007, ResetL3 0x0008, ExtendL4 0x0009,
        ResetL4 0x000a, NoIncrement 0x0011, DRTMRest 0x0012, Policy 0x0013, Auth 0x0014 }
    k! { TpmHt:
        PCR 0x0000, NVIndex 0x0001, HMACSession 0x0002, PolicySession 0x0003, Permanent 0x0040,
        Transient 0x0080, Persistent 0x0081, AC 0x0090 }
    k! { TpmHandle:
        RHOwner 0x40000001, RHNull 0x40000007, RSPW 0x40000009, RHLockout 0x4000000a, RHEndorsement 0x4000000b,
        RHPlatform 0x4000000c, RHPlatformNV 0x4000000d }
    k! { TpmNt:
        Ordinary 0x0000, Counter 0x0001, Bits 0x0002, Extend 0x0004, PinFail 0x0008,
        PinPass 0x0009 }
    k! { TpmGenerated:
        VALUE 0xff544347 }
    k! { TpmiAlgHash:
        SHA1 0x0004, SHA256 0x000b, SHA384 0x000c, SHA512 0x000d, SM3256 0x0012,
        SHA3256 0x0027, SHA3384 0x0028, SHA3512 0x0029 }
    k! { TpmiAlgKdf:
        MGF1 0x0007, KDF1SP80056A 0x0020, KDF2 0x0021, KDF1SP800108 0x0022 }
    k! { TpmiAlgPublic:
        RSA 0x0001, KeyedHash 0x0008, ECC 0x0023, SymCipher 0x0025 }
    k! { TpmiAlgSymMode:
        CMAC 0x003f, CTR 0x0040, OFB 0x0041, CBC 0x0042, CFB 0x0043,
        ECB 0x0044 }
    k! { TpmiAlgSymObject:
        TDES 0x0003, AES 0x0006, SM4 0x0013, Camellia 0x0026 }
    k! { TpmiAlgKeyedhashScheme:
        HMAC 0x0005, XOR 0x000a }
    k! { TpmiAlgRsaScheme:
        RSAPSS 0x0016, RSASSA 0x0014, ECDSA 0x0018, ECDAA 0x001a, SM2 0x001b,
        ECSchnorr 0x001c, RSAES 0x0015, OAEP 0x0017 }
    k! { TpmiAlgSigScheme:
        RSAPSS 0x0016, RSASSA 0x0014, ECDSA 0x0018, ECDAA 0x001a, SM2 0x001b,
        ECSchnorr 0x001c, HMAC 0x0005 }
    k! { TpmiAlgEccScheme:
        RSAPSS 0x0016, RSASSA 0x0014, ECDSA 0x0018, ECDAA 0x001a, SM2 0x001b,
        ECSchnorr 0x001c, ECDH 0x0019, ECMQV 0x001d }
    k! { TpmiAlgAsymScheme:
        SM2 0x001b, ECDH 0x0019, ECMQV 0x001d, RSAPSS 0x0016, RSASSA 0x0014,
        ECDSA 0x0018, ECDAA 0x001a, ECSchnorr 0x001c, RSAES 0x0015, OAEP 0x0017 }
    k! { TpmiYesNo:
        NO 0x0000, YES 0x0001 }
    k! { TpmiStAttest:
        AttestCertify 0x8017, AttestQuote 0x8018, AttestSessionAudit 0x8016, AttestCommandAudit 0x8015, AttestTime 0x8019,
        AttestCreation 0x801a, AttestNV 0x8014, AttestNVDigest 0x801c }
    k! { TpmiStCommandTag:
        NoSessions 0x8001, Sessions 0x8002 }
    k! { TpmaLocality:
        LOC_ZERO 0x0001, LOC_ONE 0x0002, LOC_TWO 0x0004, LOC_THREE 0x0008, LOC_FOUR 0x0010 }
    k! { TpmaNv:
        PPWRITE 0x0001, OWNERWRITE 0x0002, AUTHWRITE 0x0004, POLICYWRITE 0x0008, POLICY_DELETE 0x0400,
        WRITELOCKED 0x0800, WRITEALL 0x1000, WRITEDEFINE 0x2000, WRITE_STCLEAR 0x4000, GLOBALLOCK 0x8000,
        PPREAD 0x10000, OWNERREAD 0x20000, AUTHREAD 0x40000, POLICYREAD 0x80000, NO_DA 0x2000000,
        ORDERLY 0x4000000, CLEAR_STCLEAR 0x8000000, READLOCKED 0x10000000, WRITTEN 0x20000000, PLATFORMCREATE 0x40000000,
        READ_STCLEAR 0x80000000 }
    k! { TpmaObject:
        FIXED_TPM 0x0002, ST_CLEAR 0x0004, FIXED_PARENT 0x0010, SENSITIVE_DATA_ORIGIN 0x0020, USER_WITH_AUTH 0x0040,
        ADMIN_WITH_POLICY 0x0080, NO_DA 0x0400, ENCRYPTED_DUPLICATION 0x0800, RESTRICTED 0x10000, DECRYPT 0x20000,
        SIGN_ENCRYPT 0x40000, X509_SIGN 0x80000 }
    k! { TpmaAlgorithm:
        ASYMMETRIC 0x0001, SYMMETRIC 0x0002, HASH 0x0004, OBJECT 0x0008, SIGNING 0x0100,
        ENCRYPTING 0x0200, METHOD 0x0400 }
    k! { TpmaSession:
        CONTINUE_SESSION 0x0001, AUDIT_EXCLUSIVE 0x0002, AUDIT_RESET 0x0004, DECRYPT 0x0020, ENCRYPT 0x0040,
        AUDIT 0x0080 }
    k! { TpmaCc:
        NV 0x400000, EXTENSIVE 0x800000, FLUSHED 0x1000000, R_HANDLE 0x10000000, V 0x20000000 }
    k! { Alg:
        Rsa 0x0001, Tdes 0x0003, Sha1 0x0004, Hmac 0x0005, Aes 0x0006,
        Mgf1 0x0007, KeyedHash 0x0008, Null 0x0010, Xor 0x000a, Sha256 0x000b,
        Sha384 0x000c, Sha512 0x000d, Sm3_256 0x0012, Sm4 0x0013, RsaSsa 0x0014,
        RsaEs 0x0015, RsaPss 0x0016, Oaep 0x0017, Ecdsa 0x0018, Ecdh 0x0019,
        Ecdaa 0x001a, Sm2 0x001b, EcSchnorr 0x001c, Ecmqv 0x001d, Kdf1Sp800_56A 0x0020,
        Kdf2 0x0021, Kdf1Sp800_108 0x0022, Ecc 0x0023, SymCipher 0x0025, Camellia 0x0026,
        Sha3_256 0x0027, Sha3_384 0x0028, Sha3_512 0x0029, Ctr 0x0040, Ofb 0x0041,
        Cbc 0x0042, Cfb 0x0043, Ecb 0x0044 }
    t
}
