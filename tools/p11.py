"""Minimal ctypes PKCS#11 client for demonstrations (loads target/debug/libkryoptic_pkcs11.so)."""
import ctypes as C, os, re, shutil, sys, tempfile
from ctypes import c_ulong as UL, c_void_p, byref, POINTER, sizeof

def consts():
    """CK* constants parsed from the bindings used by the library (repo tree) are avoided: literal table."""
CKR = dict(OK=0, SLOT_ID_INVALID=3, GENERAL_ERROR=5, ARGUMENTS_BAD=7, ACTION_PROHIBITED=0x1B,
  ATTRIBUTE_READ_ONLY=0x10, ATTRIBUTE_SENSITIVE=0x11, ATTRIBUTE_TYPE_INVALID=0x12, ATTRIBUTE_VALUE_INVALID=0x13,
  DATA_INVALID=0x20, DATA_LEN_RANGE=0x21, DEVICE_ERROR=0x30, ENCRYPTED_DATA_INVALID=0x40, ENCRYPTED_DATA_LEN_RANGE=0x41,
  KEY_HANDLE_INVALID=0x60, KEY_TYPE_INCONSISTENT=0x63, KEY_FUNCTION_NOT_PERMITTED=0x68, KEY_NOT_WRAPPABLE=0x69, KEY_UNEXTRACTABLE=0x6A,
  MECHANISM_INVALID=0x70, MECHANISM_PARAM_INVALID=0x71, OBJECT_HANDLE_INVALID=0x82, OPERATION_ACTIVE=0x90,
  OPERATION_NOT_INITIALIZED=0x91, PIN_INCORRECT=0xA0, PIN_INVALID=0xA1, PIN_LEN_RANGE=0xA2, PIN_LOCKED=0xA4,
  SESSION_HANDLE_INVALID=0xB3, SESSION_READ_ONLY=0xB5, SESSION_EXISTS=0xB6, SIGNATURE_INVALID=0xC0, SIGNATURE_LEN_RANGE=0xC1,
  TEMPLATE_INCOMPLETE=0xD0, TEMPLATE_INCONSISTENT=0xD1, USER_ALREADY_LOGGED_IN=0x100, USER_NOT_LOGGED_IN=0x101,
  USER_PIN_NOT_INITIALIZED=0x102, USER_TYPE_INVALID=0x103, BUFFER_TOO_SMALL=0x150, SAVED_STATE_INVALID=0x160,
  CRYPTOKI_NOT_INITIALIZED=0x190, CRYPTOKI_ALREADY_INITIALIZED=0x191)
RVN = {v: k for k, v in CKR.items()}

class ATTR(C.Structure):
    _fields_ = [("type", UL), ("pValue", c_void_p), ("ulValueLen", UL)]
class MECH(C.Structure):
    _fields_ = [("mechanism", UL), ("pParameter", c_void_p), ("ulParameterLen", UL)]
class IARGS(C.Structure):
    _fields_ = [("a", c_void_p)] * 0 + [("CreateMutex", c_void_p), ("DestroyMutex", c_void_p), ("LockMutex", c_void_p),
                ("UnlockMutex", c_void_p), ("flags", UL), ("pReserved", c_void_p)]

NAMES = """Initialize Finalize GetInfo GetFunctionList GetSlotList GetSlotInfo GetTokenInfo GetMechanismList GetMechanismInfo
InitToken InitPIN SetPIN OpenSession CloseSession CloseAllSessions GetSessionInfo GetOperationState SetOperationState Login
Logout CreateObject CopyObject DestroyObject GetObjectSize GetAttributeValue SetAttributeValue FindObjectsInit FindObjects
FindObjectsFinal EncryptInit Encrypt EncryptUpdate EncryptFinal DecryptInit Decrypt DecryptUpdate DecryptFinal DigestInit
Digest DigestUpdate DigestKey DigestFinal SignInit Sign SignUpdate SignFinal SignRecoverInit SignRecover VerifyInit Verify
VerifyUpdate VerifyFinal VerifyRecoverInit VerifyRecover DigestEncryptUpdate DecryptDigestUpdate SignEncryptUpdate
DecryptVerifyUpdate GenerateKey GenerateKeyPair WrapKey UnwrapKey DeriveKey SeedRandom GenerateRandom GetFunctionStatus
CancelFunction WaitForSlotEvent
GetInterfaceList GetInterface LoginUser SessionCancel MessageEncryptInit EncryptMessage EncryptMessageBegin EncryptMessageNext
MessageEncryptFinal MessageDecryptInit DecryptMessage DecryptMessageBegin DecryptMessageNext MessageDecryptFinal MessageSignInit
SignMessage SignMessageBegin SignMessageNext MessageSignFinal MessageVerifyInit VerifyMessage VerifyMessageBegin VerifyMessageNext
MessageVerifyFinal EncapsulateKey DecapsulateKey VerifySignatureInit VerifySignature VerifySignatureUpdate VerifySignatureFinal
GetSessionValidationFlags AsyncComplete AsyncGetID AsyncJoin WrapKeyAuthenticated UnwrapKeyAuthenticated""".split()

def ck(name_val):
    return name_val

class Lib:
    def __init__(self, so=None):
        so = so or os.environ.get("P11SO") or os.path.join(os.getcwd(), "target/debug/libkryoptic_pkcs11.so")
        self.dll = C.CDLL(so)
        class IFACE(C.Structure):
            _fields_ = [("name", C.c_char_p), ("fl", c_void_p), ("flags", UL)]
        ifp = POINTER(IFACE)()
        self.dll.C_GetInterface.restype = UL
        ver = (C.c_ubyte * 2)(3, 2)
        rv = self.dll.C_GetInterface(C.c_char_p(b"PKCS 11"), ver, byref(ifp), UL(0))
        n = len(NAMES)
        if rv != 0:
            rv = self.dll.C_GetInterface(None, None, byref(ifp), UL(0)); assert rv == 0, rv
        base = ifp.contents.fl
        v = (C.c_ubyte * 2).from_address(base)
        self.version = (v[0], v[1])
        if self.version < (3, 2): n = 92
        arr = (c_void_p * n).from_address(base + 8)
        self.f = {}
        for i in range(n):
            if arr[i]:
                self.f[NAMES[i]] = C.CFUNCTYPE(UL)(arr[i])
        self.keep = []
    def __getattr__(self, nm):
        if nm.startswith("C_"):
            fn = self.f[nm[2:]]
            def call(*args):
                conv = []
                for a in args:
                    if isinstance(a, bool): a = int(a)
                    if isinstance(a, int): conv.append(UL(a))
                    elif isinstance(a, bytes):
                        b = C.create_string_buffer(a, max(len(a), 1)); conv.append(b); self.keep.append(b)
                    elif a is None: conv.append(c_void_p(None))
                    else: conv.append(a)
                return fn(*conv)
            return call
        raise AttributeError(nm)

def rvname(rv): return RVN.get(rv, hex(rv))

def tmpl(*pairs):
    """pairs of (type, value): bool -> CK_BBOOL, int -> CK_ULONG, bytes -> buffer, None -> null"""
    arr = (ATTR * max(len(pairs), 1))(); keep = []
    for i, (t, v) in enumerate(pairs):
        arr[i].type = t
        if v is None: continue
        if isinstance(v, bool): b = C.c_ubyte(int(v))
        elif isinstance(v, int): b = UL(v)
        elif isinstance(v, (bytes, bytearray)):
            b = C.create_string_buffer(bytes(v), max(len(v), 1))
            keep.append(b); arr[i].pValue = C.addressof(b); arr[i].ulValueLen = len(v); continue
        elif isinstance(v, list):
            b = (UL * len(v))(*v)
        keep.append(b); arr[i].pValue = C.addressof(b); arr[i].ulValueLen = sizeof(b)
    arr._keep = keep
    return arr, UL(len(pairs))

def mech(m, param=None):
    mm = MECH(); mm.mechanism = m
    if param is not None:
        if isinstance(param, bytes):
            param = C.create_string_buffer(param, len(param))
        mm.pParameter = C.addressof(param); mm.ulParameterLen = sizeof(param); mm._k = param
    return mm

class Tok:
    """A scratch token. dbtype sqlite|nssdb"""
    SO = b"12345678"; PIN = b"87654321"
    def __init__(self, dbtype="sqlite", extra="", init=True):
        self.dir = tempfile.mkdtemp(prefix="kryodemo.")
        if dbtype == "sqlite": dbargs = os.path.join(self.dir, "token.sql")
        else: dbargs = "configDir=" + self.dir
        self.dbargs = dbargs
        conf = os.path.join(self.dir, "token.conf")
        with open(conf, "w") as f:
            f.write('%s\n[[slots]]\nslot = 0\ndbtype = "%s"\ndbargs = "%s"\n%s\n' % ("", dbtype, dbargs, extra))
        os.environ["KRYOPTIC_CONF"] = conf
        os.environ.pop("XDG_CONFIG_HOME", None)
        self.l = Lib()
        self.ok(self.l.C_Initialize(None), "Initialize")
        if init:
            self.ok(self.l.C_InitToken(0, self.SO, len(self.SO), b" " * 32), "InitToken")
            s = self.session()
            self.ok(self.l.C_Login(s, 0, self.SO, len(self.SO)), "SO login")
            self.ok(self.l.C_InitPIN(s, self.PIN, len(self.PIN)), "InitPIN")
            self.ok(self.l.C_Logout(s), "SO logout")
            self.ok(self.l.C_CloseSession(s), "close")
    def ok(self, rv, what=""):
        if rv != 0:
            raise SystemExit("setup failure: %s -> %s" % (what, rvname(rv)))
    def session(self, rw=True):
        h = UL(0)
        self.ok(self.l.C_OpenSession(0, 4 | (2 if rw else 0), None, None, byref(h)), "OpenSession")
        return h.value
    def login(self, s, pin=None, user=1):
        pin = self.PIN if pin is None else pin
        return self.l.C_Login(s, user, pin, len(pin))
    def create(self, s, *pairs):
        h = UL(0); t, n = tmpl(*pairs)
        rv = self.l.C_CreateObject(s, t, n, byref(h))
        return rv, h.value
    def genkey(self, s, m, *pairs, param=None):
        h = UL(0); t, n = tmpl(*pairs); mm = mech(m, param)
        rv = self.l.C_GenerateKey(s, byref(mm), t, n, byref(h))
        return rv, h.value
    def genpair(self, s, m, pub, priv):
        a, b = UL(0), UL(0); t, n = tmpl(*pub); t2, n2 = tmpl(*priv); mm = mech(m)
        rv = self.l.C_GenerateKeyPair(s, byref(mm), t, n, t2, n2, byref(a), byref(b))
        return rv, a.value, b.value
    def getattr(self, s, h, typ, size=4096):
        buf = C.create_string_buffer(size); arr = (ATTR * 1)()
        arr[0].type = typ; arr[0].pValue = C.addressof(buf); arr[0].ulValueLen = size
        rv = self.l.C_GetAttributeValue(s, h, arr, 1)
        ln = arr[0].ulValueLen
        return rv, (buf.raw[:ln] if rv == 0 else None)
    def setattr(self, s, h, *pairs):
        t, n = tmpl(*pairs)
        return self.l.C_SetAttributeValue(s, h, t, n)
    def find(self, s, *pairs):
        t, n = tmpl(*pairs)
        rv = self.l.C_FindObjectsInit(s, t, n)
        if rv: return rv, []
        out = []
        while True:
            hs = (UL * 16)(); c = UL(0)
            rv = self.l.C_FindObjects(s, hs, UL(16), byref(c))
            if rv or c.value == 0: break
            out += list(hs)[:c.value]
        self.l.C_FindObjectsFinal(s)
        return rv, out
    def oneshot(self, kind, s, data, size=8192):
        buf = C.create_string_buffer(size); ln = UL(size)
        rv = getattr(self.l, "C_" + kind)(s, data, len(data), buf, byref(ln))
        return rv, buf.raw[:ln.value] if rv == 0 else None
    def close(self):
        self.l.C_Finalize(None)
        d = self.dir
        if os.path.basename(d).startswith("kryodemo."): shutil.rmtree(d, ignore_errors=True)

# attribute types used by the demonstrations
A = dict(CLASS=0, TOKEN=1, PRIVATE=2, LABEL=3, UNIQUE_ID=4, VALUE=0x11, TRUSTED=0x86, KEY_TYPE=0x100, ID=0x102, SENSITIVE=0x103,
  ENCRYPT=0x104, DECRYPT=0x105, WRAP=0x106, UNWRAP=0x107, SIGN=0x108, SIGN_RECOVER=0x109, VERIFY=0x10A, DERIVE=0x10C,
  MODULUS=0x120, MODULUS_BITS=0x121, PUBLIC_EXPONENT=0x122, VALUE_LEN=0x161, EXTRACTABLE=0x162, LOCAL=0x163,
  NEVER_EXTRACTABLE=0x164, ALWAYS_SENSITIVE=0x165, KEY_GEN_MECHANISM=0x166, MODIFIABLE=0x170, COPYABLE=0x171, DESTROYABLE=0x172,
  EC_PARAMS=0x180, EC_POINT=0x181, ALWAYS_AUTHENTICATE=0x202, WRAP_WITH_TRUSTED=0x210, ALLOWED_MECHANISMS=0x40000600, APPLICATION=0x10,
  HOTP_COUNTER=0x22E)
CKO_DATA, CKO_PUBLIC, CKO_PRIVATE, CKO_SECRET = 0, 2, 3, 4
CKK_RSA, CKK_EC, CKK_GENERIC, CKK_AES = 0, 3, 0x10, 0x1F
CKM_AES_KEY_GEN, CKM_AES_ECB, CKM_AES_CBC, CKM_AES_CBC_PAD, CKM_AES_CTR, CKM_AES_GCM = 0x1080, 0x1081, 0x1082, 0x1085, 0x1086, 0x1087
CKM_AES_KEY_WRAP, CKM_AES_KEY_WRAP_KWP = 0x2109, 0x210B
CKM_RSA_GEN, CKM_RSA_PKCS, CKM_SHA256_RSA = 0, 1, 0x40
CKM_EC_GEN, CKM_ECDSA, CKM_ECDSA_SHA256 = 0x1040, 0x1041, 0x1044
CKM_SHA256, CKM_SHA256_HMAC, CKM_GENERIC_GEN = 0x250, 0x251, 0x350
P256 = bytes.fromhex("06082a8648ce3d030107")
