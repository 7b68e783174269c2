// Code generated by shimgen from package syscall; DO NOT EDIT.

package vsyscall

import realsyscall "syscall"

const AF_ALG = realsyscall.AF_ALG
const AF_APPLETALK = realsyscall.AF_APPLETALK
const AF_ASH = realsyscall.AF_ASH
const AF_ATMPVC = realsyscall.AF_ATMPVC
const AF_ATMSVC = realsyscall.AF_ATMSVC
const AF_AX25 = realsyscall.AF_AX25
const AF_BLUETOOTH = realsyscall.AF_BLUETOOTH
const AF_BRIDGE = realsyscall.AF_BRIDGE
const AF_CAIF = realsyscall.AF_CAIF
const AF_CAN = realsyscall.AF_CAN
const AF_DECnet = realsyscall.AF_DECnet
const AF_ECONET = realsyscall.AF_ECONET
const AF_FILE = realsyscall.AF_FILE
const AF_IEEE802154 = realsyscall.AF_IEEE802154
const AF_INET = realsyscall.AF_INET
const AF_INET6 = realsyscall.AF_INET6
const AF_IPX = realsyscall.AF_IPX
const AF_IRDA = realsyscall.AF_IRDA
const AF_ISDN = realsyscall.AF_ISDN
const AF_IUCV = realsyscall.AF_IUCV
const AF_KEY = realsyscall.AF_KEY
const AF_LLC = realsyscall.AF_LLC
const AF_LOCAL = realsyscall.AF_LOCAL
const AF_MAX = realsyscall.AF_MAX
const AF_NETBEUI = realsyscall.AF_NETBEUI
const AF_NETLINK = realsyscall.AF_NETLINK
const AF_NETROM = realsyscall.AF_NETROM
const AF_PACKET = realsyscall.AF_PACKET
const AF_PHONET = realsyscall.AF_PHONET
const AF_PPPOX = realsyscall.AF_PPPOX
const AF_RDS = realsyscall.AF_RDS
const AF_ROSE = realsyscall.AF_ROSE
const AF_ROUTE = realsyscall.AF_ROUTE
const AF_RXRPC = realsyscall.AF_RXRPC
const AF_SECURITY = realsyscall.AF_SECURITY
const AF_SNA = realsyscall.AF_SNA
const AF_TIPC = realsyscall.AF_TIPC
const AF_UNIX = realsyscall.AF_UNIX
const AF_UNSPEC = realsyscall.AF_UNSPEC
const AF_WANPIPE = realsyscall.AF_WANPIPE
const AF_X25 = realsyscall.AF_X25
const ARPHRD_ADAPT = realsyscall.ARPHRD_ADAPT
const ARPHRD_APPLETLK = realsyscall.ARPHRD_APPLETLK
const ARPHRD_ARCNET = realsyscall.ARPHRD_ARCNET
const ARPHRD_ASH = realsyscall.ARPHRD_ASH
const ARPHRD_ATM = realsyscall.ARPHRD_ATM
const ARPHRD_AX25 = realsyscall.ARPHRD_AX25
const ARPHRD_BIF = realsyscall.ARPHRD_BIF
const ARPHRD_CHAOS = realsyscall.ARPHRD_CHAOS
const ARPHRD_CISCO = realsyscall.ARPHRD_CISCO
const ARPHRD_CSLIP = realsyscall.ARPHRD_CSLIP
const ARPHRD_CSLIP6 = realsyscall.ARPHRD_CSLIP6
const ARPHRD_DDCMP = realsyscall.ARPHRD_DDCMP
const ARPHRD_DLCI = realsyscall.ARPHRD_DLCI
const ARPHRD_ECONET = realsyscall.ARPHRD_ECONET
const ARPHRD_EETHER = realsyscall.ARPHRD_EETHER
const ARPHRD_ETHER = realsyscall.ARPHRD_ETHER
const ARPHRD_EUI64 = realsyscall.ARPHRD_EUI64
const ARPHRD_FCAL = realsyscall.ARPHRD_FCAL
const ARPHRD_FCFABRIC = realsyscall.ARPHRD_FCFABRIC
const ARPHRD_FCPL = realsyscall.ARPHRD_FCPL
const ARPHRD_FCPP = realsyscall.ARPHRD_FCPP
const ARPHRD_FDDI = realsyscall.ARPHRD_FDDI
const ARPHRD_FRAD = realsyscall.ARPHRD_FRAD
const ARPHRD_HDLC = realsyscall.ARPHRD_HDLC
const ARPHRD_HIPPI = realsyscall.ARPHRD_HIPPI
const ARPHRD_HWX25 = realsyscall.ARPHRD_HWX25
const ARPHRD_IEEE1394 = realsyscall.ARPHRD_IEEE1394
const ARPHRD_IEEE802 = realsyscall.ARPHRD_IEEE802
const ARPHRD_IEEE80211 = realsyscall.ARPHRD_IEEE80211
const ARPHRD_IEEE80211_PRISM = realsyscall.ARPHRD_IEEE80211_PRISM
const ARPHRD_IEEE80211_RADIOTAP = realsyscall.ARPHRD_IEEE80211_RADIOTAP
const ARPHRD_IEEE802154 = realsyscall.ARPHRD_IEEE802154
const ARPHRD_IEEE802154_PHY = realsyscall.ARPHRD_IEEE802154_PHY
const ARPHRD_IEEE802_TR = realsyscall.ARPHRD_IEEE802_TR
const ARPHRD_INFINIBAND = realsyscall.ARPHRD_INFINIBAND
const ARPHRD_IPDDP = realsyscall.ARPHRD_IPDDP
const ARPHRD_IPGRE = realsyscall.ARPHRD_IPGRE
const ARPHRD_IRDA = realsyscall.ARPHRD_IRDA
const ARPHRD_LAPB = realsyscall.ARPHRD_LAPB
const ARPHRD_LOCALTLK = realsyscall.ARPHRD_LOCALTLK
const ARPHRD_LOOPBACK = realsyscall.ARPHRD_LOOPBACK
const ARPHRD_METRICOM = realsyscall.ARPHRD_METRICOM
const ARPHRD_NETROM = realsyscall.ARPHRD_NETROM
const ARPHRD_NONE = realsyscall.ARPHRD_NONE
const ARPHRD_PIMREG = realsyscall.ARPHRD_PIMREG
const ARPHRD_PPP = realsyscall.ARPHRD_PPP
const ARPHRD_PRONET = realsyscall.ARPHRD_PRONET
const ARPHRD_RAWHDLC = realsyscall.ARPHRD_RAWHDLC
const ARPHRD_ROSE = realsyscall.ARPHRD_ROSE
const ARPHRD_RSRVD = realsyscall.ARPHRD_RSRVD
const ARPHRD_SIT = realsyscall.ARPHRD_SIT
const ARPHRD_SKIP = realsyscall.ARPHRD_SKIP
const ARPHRD_SLIP = realsyscall.ARPHRD_SLIP
const ARPHRD_SLIP6 = realsyscall.ARPHRD_SLIP6
const ARPHRD_TUNNEL = realsyscall.ARPHRD_TUNNEL
const ARPHRD_TUNNEL6 = realsyscall.ARPHRD_TUNNEL6
const ARPHRD_VOID = realsyscall.ARPHRD_VOID
const ARPHRD_X25 = realsyscall.ARPHRD_X25

var Accept = realsyscall.Accept
var Accept4 = realsyscall.Accept4
var Access = realsyscall.Access
var Acct = realsyscall.Acct
var Adjtimex = realsyscall.Adjtimex
var AllThreadsSyscall = realsyscall.AllThreadsSyscall
var AllThreadsSyscall6 = realsyscall.AllThreadsSyscall6
var AttachLsf = realsyscall.AttachLsf

const B0 = realsyscall.B0
const B1000000 = realsyscall.B1000000
const B110 = realsyscall.B110
const B115200 = realsyscall.B115200
const B1152000 = realsyscall.B1152000
const B1200 = realsyscall.B1200
const B134 = realsyscall.B134
const B150 = realsyscall.B150
const B1500000 = realsyscall.B1500000
const B1800 = realsyscall.B1800
const B19200 = realsyscall.B19200
const B200 = realsyscall.B200
const B2000000 = realsyscall.B2000000
const B230400 = realsyscall.B230400
const B2400 = realsyscall.B2400
const B2500000 = realsyscall.B2500000
const B300 = realsyscall.B300
const B3000000 = realsyscall.B3000000
const B3500000 = realsyscall.B3500000
const B38400 = realsyscall.B38400
const B4000000 = realsyscall.B4000000
const B460800 = realsyscall.B460800
const B4800 = realsyscall.B4800
const B50 = realsyscall.B50
const B500000 = realsyscall.B500000
const B57600 = realsyscall.B57600
const B576000 = realsyscall.B576000
const B600 = realsyscall.B600
const B75 = realsyscall.B75
const B921600 = realsyscall.B921600
const B9600 = realsyscall.B9600
const BPF_A = realsyscall.BPF_A
const BPF_ABS = realsyscall.BPF_ABS
const BPF_ADD = realsyscall.BPF_ADD
const BPF_ALU = realsyscall.BPF_ALU
const BPF_AND = realsyscall.BPF_AND
const BPF_B = realsyscall.BPF_B
const BPF_DIV = realsyscall.BPF_DIV
const BPF_H = realsyscall.BPF_H
const BPF_IMM = realsyscall.BPF_IMM
const BPF_IND = realsyscall.BPF_IND
const BPF_JA = realsyscall.BPF_JA
const BPF_JEQ = realsyscall.BPF_JEQ
const BPF_JGE = realsyscall.BPF_JGE
const BPF_JGT = realsyscall.BPF_JGT
const BPF_JMP = realsyscall.BPF_JMP
const BPF_JSET = realsyscall.BPF_JSET
const BPF_K = realsyscall.BPF_K
const BPF_LD = realsyscall.BPF_LD
const BPF_LDX = realsyscall.BPF_LDX
const BPF_LEN = realsyscall.BPF_LEN
const BPF_LSH = realsyscall.BPF_LSH
const BPF_MAJOR_VERSION = realsyscall.BPF_MAJOR_VERSION
const BPF_MAXINSNS = realsyscall.BPF_MAXINSNS
const BPF_MEM = realsyscall.BPF_MEM
const BPF_MEMWORDS = realsyscall.BPF_MEMWORDS
const BPF_MINOR_VERSION = realsyscall.BPF_MINOR_VERSION
const BPF_MISC = realsyscall.BPF_MISC
const BPF_MSH = realsyscall.BPF_MSH
const BPF_MUL = realsyscall.BPF_MUL
const BPF_NEG = realsyscall.BPF_NEG
const BPF_OR = realsyscall.BPF_OR
const BPF_RET = realsyscall.BPF_RET
const BPF_RSH = realsyscall.BPF_RSH
const BPF_ST = realsyscall.BPF_ST
const BPF_STX = realsyscall.BPF_STX
const BPF_SUB = realsyscall.BPF_SUB
const BPF_TAX = realsyscall.BPF_TAX
const BPF_TXA = realsyscall.BPF_TXA
const BPF_W = realsyscall.BPF_W
const BPF_X = realsyscall.BPF_X
const BRKINT = realsyscall.BRKINT

var Bind = realsyscall.Bind
var BindToDevice = realsyscall.BindToDevice
var BytePtrFromString = realsyscall.BytePtrFromString
var ByteSliceFromString = realsyscall.ByteSliceFromString

const CLOCAL = realsyscall.CLOCAL
const CLONE_CHILD_CLEARTID = realsyscall.CLONE_CHILD_CLEARTID
const CLONE_CHILD_SETTID = realsyscall.CLONE_CHILD_SETTID
const CLONE_CLEAR_SIGHAND = realsyscall.CLONE_CLEAR_SIGHAND
const CLONE_DETACHED = realsyscall.CLONE_DETACHED
const CLONE_FILES = realsyscall.CLONE_FILES
const CLONE_FS = realsyscall.CLONE_FS
const CLONE_INTO_CGROUP = realsyscall.CLONE_INTO_CGROUP
const CLONE_IO = realsyscall.CLONE_IO
const CLONE_NEWCGROUP = realsyscall.CLONE_NEWCGROUP
const CLONE_NEWIPC = realsyscall.CLONE_NEWIPC
const CLONE_NEWNET = realsyscall.CLONE_NEWNET
const CLONE_NEWNS = realsyscall.CLONE_NEWNS
const CLONE_NEWPID = realsyscall.CLONE_NEWPID
const CLONE_NEWTIME = realsyscall.CLONE_NEWTIME
const CLONE_NEWUSER = realsyscall.CLONE_NEWUSER
const CLONE_NEWUTS = realsyscall.CLONE_NEWUTS
const CLONE_PARENT = realsyscall.CLONE_PARENT
const CLONE_PARENT_SETTID = realsyscall.CLONE_PARENT_SETTID
const CLONE_PIDFD = realsyscall.CLONE_PIDFD
const CLONE_PTRACE = realsyscall.CLONE_PTRACE
const CLONE_SETTLS = realsyscall.CLONE_SETTLS
const CLONE_SIGHAND = realsyscall.CLONE_SIGHAND
const CLONE_SYSVSEM = realsyscall.CLONE_SYSVSEM
const CLONE_THREAD = realsyscall.CLONE_THREAD
const CLONE_UNTRACED = realsyscall.CLONE_UNTRACED
const CLONE_VFORK = realsyscall.CLONE_VFORK
const CLONE_VM = realsyscall.CLONE_VM
const CREAD = realsyscall.CREAD
const CS5 = realsyscall.CS5
const CS6 = realsyscall.CS6
const CS7 = realsyscall.CS7
const CS8 = realsyscall.CS8
const CSIZE = realsyscall.CSIZE
const CSTOPB = realsyscall.CSTOPB

var Chdir = realsyscall.Chdir
var Chmod = realsyscall.Chmod
var Chown = realsyscall.Chown
var Chroot = realsyscall.Chroot
var Clearenv = realsyscall.Clearenv
var Close = realsyscall.Close
var CloseOnExec = realsyscall.CloseOnExec
var CmsgLen = realsyscall.CmsgLen
var CmsgSpace = realsyscall.CmsgSpace

type Cmsghdr = realsyscall.Cmsghdr
type Conn = realsyscall.Conn

var Connect = realsyscall.Connect
var Creat = realsyscall.Creat

type Credential = realsyscall.Credential

const DT_BLK = realsyscall.DT_BLK
const DT_CHR = realsyscall.DT_CHR
const DT_DIR = realsyscall.DT_DIR
const DT_FIFO = realsyscall.DT_FIFO
const DT_LNK = realsyscall.DT_LNK
const DT_REG = realsyscall.DT_REG
const DT_SOCK = realsyscall.DT_SOCK
const DT_UNKNOWN = realsyscall.DT_UNKNOWN
const DT_WHT = realsyscall.DT_WHT

var DetachLsf = realsyscall.DetachLsf

type Dirent = realsyscall.Dirent

var Dup = realsyscall.Dup
var Dup2 = realsyscall.Dup2
var Dup3 = realsyscall.Dup3

const E2BIG = realsyscall.E2BIG
const EACCES = realsyscall.EACCES
const EADDRINUSE = realsyscall.EADDRINUSE
const EADDRNOTAVAIL = realsyscall.EADDRNOTAVAIL
const EADV = realsyscall.EADV
const EAFNOSUPPORT = realsyscall.EAFNOSUPPORT
const EAGAIN = realsyscall.EAGAIN
const EALREADY = realsyscall.EALREADY
const EBADE = realsyscall.EBADE
const EBADF = realsyscall.EBADF
const EBADFD = realsyscall.EBADFD
const EBADMSG = realsyscall.EBADMSG
const EBADR = realsyscall.EBADR
const EBADRQC = realsyscall.EBADRQC
const EBADSLT = realsyscall.EBADSLT
const EBFONT = realsyscall.EBFONT
const EBUSY = realsyscall.EBUSY
const ECANCELED = realsyscall.ECANCELED
const ECHILD = realsyscall.ECHILD
const ECHO = realsyscall.ECHO
const ECHOCTL = realsyscall.ECHOCTL
const ECHOE = realsyscall.ECHOE
const ECHOK = realsyscall.ECHOK
const ECHOKE = realsyscall.ECHOKE
const ECHONL = realsyscall.ECHONL
const ECHOPRT = realsyscall.ECHOPRT
const ECHRNG = realsyscall.ECHRNG
const ECOMM = realsyscall.ECOMM
const ECONNABORTED = realsyscall.ECONNABORTED
const ECONNREFUSED = realsyscall.ECONNREFUSED
const ECONNRESET = realsyscall.ECONNRESET
const EDEADLK = realsyscall.EDEADLK
const EDEADLOCK = realsyscall.EDEADLOCK
const EDESTADDRREQ = realsyscall.EDESTADDRREQ
const EDOM = realsyscall.EDOM
const EDOTDOT = realsyscall.EDOTDOT
const EDQUOT = realsyscall.EDQUOT
const EEXIST = realsyscall.EEXIST
const EFAULT = realsyscall.EFAULT
const EFBIG = realsyscall.EFBIG
const EHOSTDOWN = realsyscall.EHOSTDOWN
const EHOSTUNREACH = realsyscall.EHOSTUNREACH
const EIDRM = realsyscall.EIDRM
const EILSEQ = realsyscall.EILSEQ
const EINPROGRESS = realsyscall.EINPROGRESS
const EINTR = realsyscall.EINTR
const EINVAL = realsyscall.EINVAL
const EIO = realsyscall.EIO
const EISCONN = realsyscall.EISCONN
const EISDIR = realsyscall.EISDIR
const EISNAM = realsyscall.EISNAM
const EKEYEXPIRED = realsyscall.EKEYEXPIRED
const EKEYREJECTED = realsyscall.EKEYREJECTED
const EKEYREVOKED = realsyscall.EKEYREVOKED
const EL2HLT = realsyscall.EL2HLT
const EL2NSYNC = realsyscall.EL2NSYNC
const EL3HLT = realsyscall.EL3HLT
const EL3RST = realsyscall.EL3RST
const ELIBACC = realsyscall.ELIBACC
const ELIBBAD = realsyscall.ELIBBAD
const ELIBEXEC = realsyscall.ELIBEXEC
const ELIBMAX = realsyscall.ELIBMAX
const ELIBSCN = realsyscall.ELIBSCN
const ELNRNG = realsyscall.ELNRNG
const ELOOP = realsyscall.ELOOP
const EMEDIUMTYPE = realsyscall.EMEDIUMTYPE
const EMFILE = realsyscall.EMFILE
const EMLINK = realsyscall.EMLINK
const EMSGSIZE = realsyscall.EMSGSIZE
const EMULTIHOP = realsyscall.EMULTIHOP
const ENAMETOOLONG = realsyscall.ENAMETOOLONG
const ENAVAIL = realsyscall.ENAVAIL
const ENETDOWN = realsyscall.ENETDOWN
const ENETRESET = realsyscall.ENETRESET
const ENETUNREACH = realsyscall.ENETUNREACH
const ENFILE = realsyscall.ENFILE
const ENOANO = realsyscall.ENOANO
const ENOBUFS = realsyscall.ENOBUFS
const ENOCSI = realsyscall.ENOCSI
const ENODATA = realsyscall.ENODATA
const ENODEV = realsyscall.ENODEV
const ENOENT = realsyscall.ENOENT
const ENOEXEC = realsyscall.ENOEXEC
const ENOKEY = realsyscall.ENOKEY
const ENOLCK = realsyscall.ENOLCK
const ENOLINK = realsyscall.ENOLINK
const ENOMEDIUM = realsyscall.ENOMEDIUM
const ENOMEM = realsyscall.ENOMEM
const ENOMSG = realsyscall.ENOMSG
const ENONET = realsyscall.ENONET
const ENOPKG = realsyscall.ENOPKG
const ENOPROTOOPT = realsyscall.ENOPROTOOPT
const ENOSPC = realsyscall.ENOSPC
const ENOSR = realsyscall.ENOSR
const ENOSTR = realsyscall.ENOSTR
const ENOSYS = realsyscall.ENOSYS
const ENOTBLK = realsyscall.ENOTBLK
const ENOTCONN = realsyscall.ENOTCONN
const ENOTDIR = realsyscall.ENOTDIR
const ENOTEMPTY = realsyscall.ENOTEMPTY
const ENOTNAM = realsyscall.ENOTNAM
const ENOTRECOVERABLE = realsyscall.ENOTRECOVERABLE
const ENOTSOCK = realsyscall.ENOTSOCK
const ENOTSUP = realsyscall.ENOTSUP
const ENOTTY = realsyscall.ENOTTY
const ENOTUNIQ = realsyscall.ENOTUNIQ
const ENXIO = realsyscall.ENXIO
const EOPNOTSUPP = realsyscall.EOPNOTSUPP
const EOVERFLOW = realsyscall.EOVERFLOW
const EOWNERDEAD = realsyscall.EOWNERDEAD
const EPERM = realsyscall.EPERM
const EPFNOSUPPORT = realsyscall.EPFNOSUPPORT
const EPIPE = realsyscall.EPIPE
const EPOLLERR = realsyscall.EPOLLERR
const EPOLLET = realsyscall.EPOLLET
const EPOLLHUP = realsyscall.EPOLLHUP
const EPOLLIN = realsyscall.EPOLLIN
const EPOLLMSG = realsyscall.EPOLLMSG
const EPOLLONESHOT = realsyscall.EPOLLONESHOT
const EPOLLOUT = realsyscall.EPOLLOUT
const EPOLLPRI = realsyscall.EPOLLPRI
const EPOLLRDBAND = realsyscall.EPOLLRDBAND
const EPOLLRDHUP = realsyscall.EPOLLRDHUP
const EPOLLRDNORM = realsyscall.EPOLLRDNORM
const EPOLLWRBAND = realsyscall.EPOLLWRBAND
const EPOLLWRNORM = realsyscall.EPOLLWRNORM
const EPOLL_CLOEXEC = realsyscall.EPOLL_CLOEXEC
const EPOLL_CTL_ADD = realsyscall.EPOLL_CTL_ADD
const EPOLL_CTL_DEL = realsyscall.EPOLL_CTL_DEL
const EPOLL_CTL_MOD = realsyscall.EPOLL_CTL_MOD
const EPOLL_NONBLOCK = realsyscall.EPOLL_NONBLOCK
const EPROTO = realsyscall.EPROTO
const EPROTONOSUPPORT = realsyscall.EPROTONOSUPPORT
const EPROTOTYPE = realsyscall.EPROTOTYPE
const ERANGE = realsyscall.ERANGE
const EREMCHG = realsyscall.EREMCHG
const EREMOTE = realsyscall.EREMOTE
const EREMOTEIO = realsyscall.EREMOTEIO
const ERESTART = realsyscall.ERESTART
const ERFKILL = realsyscall.ERFKILL
const EROFS = realsyscall.EROFS
const ESHUTDOWN = realsyscall.ESHUTDOWN
const ESOCKTNOSUPPORT = realsyscall.ESOCKTNOSUPPORT
const ESPIPE = realsyscall.ESPIPE
const ESRCH = realsyscall.ESRCH
const ESRMNT = realsyscall.ESRMNT
const ESTALE = realsyscall.ESTALE
const ESTRPIPE = realsyscall.ESTRPIPE
const ETH_P_1588 = realsyscall.ETH_P_1588
const ETH_P_8021Q = realsyscall.ETH_P_8021Q
const ETH_P_802_2 = realsyscall.ETH_P_802_2
const ETH_P_802_3 = realsyscall.ETH_P_802_3
const ETH_P_AARP = realsyscall.ETH_P_AARP
const ETH_P_ALL = realsyscall.ETH_P_ALL
const ETH_P_AOE = realsyscall.ETH_P_AOE
const ETH_P_ARCNET = realsyscall.ETH_P_ARCNET
const ETH_P_ARP = realsyscall.ETH_P_ARP
const ETH_P_ATALK = realsyscall.ETH_P_ATALK
const ETH_P_ATMFATE = realsyscall.ETH_P_ATMFATE
const ETH_P_ATMMPOA = realsyscall.ETH_P_ATMMPOA
const ETH_P_AX25 = realsyscall.ETH_P_AX25
const ETH_P_BPQ = realsyscall.ETH_P_BPQ
const ETH_P_CAIF = realsyscall.ETH_P_CAIF
const ETH_P_CAN = realsyscall.ETH_P_CAN
const ETH_P_CONTROL = realsyscall.ETH_P_CONTROL
const ETH_P_CUST = realsyscall.ETH_P_CUST
const ETH_P_DDCMP = realsyscall.ETH_P_DDCMP
const ETH_P_DEC = realsyscall.ETH_P_DEC
const ETH_P_DIAG = realsyscall.ETH_P_DIAG
const ETH_P_DNA_DL = realsyscall.ETH_P_DNA_DL
const ETH_P_DNA_RC = realsyscall.ETH_P_DNA_RC
const ETH_P_DNA_RT = realsyscall.ETH_P_DNA_RT
const ETH_P_DSA = realsyscall.ETH_P_DSA
const ETH_P_ECONET = realsyscall.ETH_P_ECONET
const ETH_P_EDSA = realsyscall.ETH_P_EDSA
const ETH_P_FCOE = realsyscall.ETH_P_FCOE
const ETH_P_FIP = realsyscall.ETH_P_FIP
const ETH_P_HDLC = realsyscall.ETH_P_HDLC
const ETH_P_IEEE802154 = realsyscall.ETH_P_IEEE802154
const ETH_P_IEEEPUP = realsyscall.ETH_P_IEEEPUP
const ETH_P_IEEEPUPAT = realsyscall.ETH_P_IEEEPUPAT
const ETH_P_IP = realsyscall.ETH_P_IP
const ETH_P_IPV6 = realsyscall.ETH_P_IPV6
const ETH_P_IPX = realsyscall.ETH_P_IPX
const ETH_P_IRDA = realsyscall.ETH_P_IRDA
const ETH_P_LAT = realsyscall.ETH_P_LAT
const ETH_P_LINK_CTL = realsyscall.ETH_P_LINK_CTL
const ETH_P_LOCALTALK = realsyscall.ETH_P_LOCALTALK
const ETH_P_LOOP = realsyscall.ETH_P_LOOP
const ETH_P_MOBITEX = realsyscall.ETH_P_MOBITEX
const ETH_P_MPLS_MC = realsyscall.ETH_P_MPLS_MC
const ETH_P_MPLS_UC = realsyscall.ETH_P_MPLS_UC
const ETH_P_PAE = realsyscall.ETH_P_PAE
const ETH_P_PAUSE = realsyscall.ETH_P_PAUSE
const ETH_P_PHONET = realsyscall.ETH_P_PHONET
const ETH_P_PPPTALK = realsyscall.ETH_P_PPPTALK
const ETH_P_PPP_DISC = realsyscall.ETH_P_PPP_DISC
const ETH_P_PPP_MP = realsyscall.ETH_P_PPP_MP
const ETH_P_PPP_SES = realsyscall.ETH_P_PPP_SES
const ETH_P_PUP = realsyscall.ETH_P_PUP
const ETH_P_PUPAT = realsyscall.ETH_P_PUPAT
const ETH_P_RARP = realsyscall.ETH_P_RARP
const ETH_P_SCA = realsyscall.ETH_P_SCA
const ETH_P_SLOW = realsyscall.ETH_P_SLOW
const ETH_P_SNAP = realsyscall.ETH_P_SNAP
const ETH_P_TEB = realsyscall.ETH_P_TEB
const ETH_P_TIPC = realsyscall.ETH_P_TIPC
const ETH_P_TRAILER = realsyscall.ETH_P_TRAILER
const ETH_P_TR_802_2 = realsyscall.ETH_P_TR_802_2
const ETH_P_WAN_PPP = realsyscall.ETH_P_WAN_PPP
const ETH_P_WCCP = realsyscall.ETH_P_WCCP
const ETH_P_X25 = realsyscall.ETH_P_X25
const ETIME = realsyscall.ETIME
const ETIMEDOUT = realsyscall.ETIMEDOUT
const ETOOMANYREFS = realsyscall.ETOOMANYREFS
const ETXTBSY = realsyscall.ETXTBSY
const EUCLEAN = realsyscall.EUCLEAN
const EUNATCH = realsyscall.EUNATCH
const EUSERS = realsyscall.EUSERS
const EWOULDBLOCK = realsyscall.EWOULDBLOCK
const EXDEV = realsyscall.EXDEV
const EXFULL = realsyscall.EXFULL

var Environ = realsyscall.Environ
var EpollCreate = realsyscall.EpollCreate
var EpollCreate1 = realsyscall.EpollCreate1
var EpollCtl = realsyscall.EpollCtl

type EpollEvent = realsyscall.EpollEvent

var EpollWait = realsyscall.EpollWait

type Errno = realsyscall.Errno

var Exec = realsyscall.Exec

const FD_CLOEXEC = realsyscall.FD_CLOEXEC
const FD_SETSIZE = realsyscall.FD_SETSIZE
const FLUSHO = realsyscall.FLUSHO
const F_DUPFD = realsyscall.F_DUPFD
const F_DUPFD_CLOEXEC = realsyscall.F_DUPFD_CLOEXEC
const F_EXLCK = realsyscall.F_EXLCK
const F_GETFD = realsyscall.F_GETFD
const F_GETFL = realsyscall.F_GETFL
const F_GETLEASE = realsyscall.F_GETLEASE
const F_GETLK = realsyscall.F_GETLK
const F_GETLK64 = realsyscall.F_GETLK64
const F_GETOWN = realsyscall.F_GETOWN
const F_GETOWN_EX = realsyscall.F_GETOWN_EX
const F_GETPIPE_SZ = realsyscall.F_GETPIPE_SZ
const F_GETSIG = realsyscall.F_GETSIG
const F_LOCK = realsyscall.F_LOCK
const F_NOTIFY = realsyscall.F_NOTIFY
const F_OK = realsyscall.F_OK
const F_RDLCK = realsyscall.F_RDLCK
const F_SETFD = realsyscall.F_SETFD
const F_SETFL = realsyscall.F_SETFL
const F_SETLEASE = realsyscall.F_SETLEASE
const F_SETLK = realsyscall.F_SETLK
const F_SETLK64 = realsyscall.F_SETLK64
const F_SETLKW = realsyscall.F_SETLKW
const F_SETLKW64 = realsyscall.F_SETLKW64
const F_SETOWN = realsyscall.F_SETOWN
const F_SETOWN_EX = realsyscall.F_SETOWN_EX
const F_SETPIPE_SZ = realsyscall.F_SETPIPE_SZ
const F_SETSIG = realsyscall.F_SETSIG
const F_SHLCK = realsyscall.F_SHLCK
const F_TEST = realsyscall.F_TEST
const F_TLOCK = realsyscall.F_TLOCK
const F_ULOCK = realsyscall.F_ULOCK
const F_UNLCK = realsyscall.F_UNLCK
const F_WRLCK = realsyscall.F_WRLCK

var Faccessat = realsyscall.Faccessat
var Fallocate = realsyscall.Fallocate
var Fchdir = realsyscall.Fchdir
var Fchmod = realsyscall.Fchmod
var Fchmodat = realsyscall.Fchmodat
var Fchown = realsyscall.Fchown
var Fchownat = realsyscall.Fchownat
var FcntlFlock = realsyscall.FcntlFlock

type FdSet = realsyscall.FdSet

var Fdatasync = realsyscall.Fdatasync
var Flock = realsyscall.Flock

type Flock_t = realsyscall.Flock_t

var ForkExec = realsyscall.ForkExec

type Fsid = realsyscall.Fsid

var Fstat = realsyscall.Fstat
var Fstatfs = realsyscall.Fstatfs
var Fsync = realsyscall.Fsync
var Ftruncate = realsyscall.Ftruncate
var Futimes = realsyscall.Futimes
var Futimesat = realsyscall.Futimesat
var Getcwd = realsyscall.Getcwd
var Getdents = realsyscall.Getdents
var Getegid = realsyscall.Getegid
var Getenv = realsyscall.Getenv
var Geteuid = realsyscall.Geteuid
var Getgid = realsyscall.Getgid
var Getgroups = realsyscall.Getgroups
var Getpagesize = realsyscall.Getpagesize
var Getpeername = realsyscall.Getpeername
var Getpgid = realsyscall.Getpgid
var Getpgrp = realsyscall.Getpgrp
var Getpid = realsyscall.Getpid
var Getppid = realsyscall.Getppid
var Getpriority = realsyscall.Getpriority
var Getrlimit = realsyscall.Getrlimit
var Getrusage = realsyscall.Getrusage
var Getsockname = realsyscall.Getsockname
var GetsockoptICMPv6Filter = realsyscall.GetsockoptICMPv6Filter
var GetsockoptIPMreq = realsyscall.GetsockoptIPMreq
var GetsockoptIPMreqn = realsyscall.GetsockoptIPMreqn
var GetsockoptIPv6MTUInfo = realsyscall.GetsockoptIPv6MTUInfo
var GetsockoptIPv6Mreq = realsyscall.GetsockoptIPv6Mreq
var GetsockoptInet4Addr = realsyscall.GetsockoptInet4Addr
var GetsockoptInt = realsyscall.GetsockoptInt
var GetsockoptUcred = realsyscall.GetsockoptUcred
var Gettid = realsyscall.Gettid
var Gettimeofday = realsyscall.Gettimeofday
var Getuid = realsyscall.Getuid
var Getwd = realsyscall.Getwd
var Getxattr = realsyscall.Getxattr

const HUPCL = realsyscall.HUPCL
const ICANON = realsyscall.ICANON
const ICMPV6_FILTER = realsyscall.ICMPV6_FILTER

type ICMPv6Filter = realsyscall.ICMPv6Filter

const ICRNL = realsyscall.ICRNL
const IEXTEN = realsyscall.IEXTEN
const IFA_ADDRESS = realsyscall.IFA_ADDRESS
const IFA_ANYCAST = realsyscall.IFA_ANYCAST
const IFA_BROADCAST = realsyscall.IFA_BROADCAST
const IFA_CACHEINFO = realsyscall.IFA_CACHEINFO
const IFA_F_DADFAILED = realsyscall.IFA_F_DADFAILED
const IFA_F_DEPRECATED = realsyscall.IFA_F_DEPRECATED
const IFA_F_HOMEADDRESS = realsyscall.IFA_F_HOMEADDRESS
const IFA_F_NODAD = realsyscall.IFA_F_NODAD
const IFA_F_OPTIMISTIC = realsyscall.IFA_F_OPTIMISTIC
const IFA_F_PERMANENT = realsyscall.IFA_F_PERMANENT
const IFA_F_SECONDARY = realsyscall.IFA_F_SECONDARY
const IFA_F_TEMPORARY = realsyscall.IFA_F_TEMPORARY
const IFA_F_TENTATIVE = realsyscall.IFA_F_TENTATIVE
const IFA_LABEL = realsyscall.IFA_LABEL
const IFA_LOCAL = realsyscall.IFA_LOCAL
const IFA_MAX = realsyscall.IFA_MAX
const IFA_MULTICAST = realsyscall.IFA_MULTICAST
const IFA_UNSPEC = realsyscall.IFA_UNSPEC
const IFF_ALLMULTI = realsyscall.IFF_ALLMULTI
const IFF_AUTOMEDIA = realsyscall.IFF_AUTOMEDIA
const IFF_BROADCAST = realsyscall.IFF_BROADCAST
const IFF_DEBUG = realsyscall.IFF_DEBUG
const IFF_DYNAMIC = realsyscall.IFF_DYNAMIC
const IFF_LOOPBACK = realsyscall.IFF_LOOPBACK
const IFF_MASTER = realsyscall.IFF_MASTER
const IFF_MULTICAST = realsyscall.IFF_MULTICAST
const IFF_NOARP = realsyscall.IFF_NOARP
const IFF_NOTRAILERS = realsyscall.IFF_NOTRAILERS
const IFF_NO_PI = realsyscall.IFF_NO_PI
const IFF_ONE_QUEUE = realsyscall.IFF_ONE_QUEUE
const IFF_POINTOPOINT = realsyscall.IFF_POINTOPOINT
const IFF_PORTSEL = realsyscall.IFF_PORTSEL
const IFF_PROMISC = realsyscall.IFF_PROMISC
const IFF_RUNNING = realsyscall.IFF_RUNNING
const IFF_SLAVE = realsyscall.IFF_SLAVE
const IFF_TAP = realsyscall.IFF_TAP
const IFF_TUN = realsyscall.IFF_TUN
const IFF_TUN_EXCL = realsyscall.IFF_TUN_EXCL
const IFF_UP = realsyscall.IFF_UP
const IFF_VNET_HDR = realsyscall.IFF_VNET_HDR
const IFLA_ADDRESS = realsyscall.IFLA_ADDRESS
const IFLA_BROADCAST = realsyscall.IFLA_BROADCAST
const IFLA_COST = realsyscall.IFLA_COST
const IFLA_IFALIAS = realsyscall.IFLA_IFALIAS
const IFLA_IFNAME = realsyscall.IFLA_IFNAME
const IFLA_LINK = realsyscall.IFLA_LINK
const IFLA_LINKINFO = realsyscall.IFLA_LINKINFO
const IFLA_LINKMODE = realsyscall.IFLA_LINKMODE
const IFLA_MAP = realsyscall.IFLA_MAP
const IFLA_MASTER = realsyscall.IFLA_MASTER
const IFLA_MAX = realsyscall.IFLA_MAX
const IFLA_MTU = realsyscall.IFLA_MTU
const IFLA_NET_NS_PID = realsyscall.IFLA_NET_NS_PID
const IFLA_OPERSTATE = realsyscall.IFLA_OPERSTATE
const IFLA_PRIORITY = realsyscall.IFLA_PRIORITY
const IFLA_PROTINFO = realsyscall.IFLA_PROTINFO
const IFLA_QDISC = realsyscall.IFLA_QDISC
const IFLA_STATS = realsyscall.IFLA_STATS
const IFLA_TXQLEN = realsyscall.IFLA_TXQLEN
const IFLA_UNSPEC = realsyscall.IFLA_UNSPEC
const IFLA_WEIGHT = realsyscall.IFLA_WEIGHT
const IFLA_WIRELESS = realsyscall.IFLA_WIRELESS
const IFNAMSIZ = realsyscall.IFNAMSIZ
const IGNBRK = realsyscall.IGNBRK
const IGNCR = realsyscall.IGNCR
const IGNPAR = realsyscall.IGNPAR
const IMAXBEL = realsyscall.IMAXBEL
const INLCR = realsyscall.INLCR
const INPCK = realsyscall.INPCK
const IN_ACCESS = realsyscall.IN_ACCESS
const IN_ALL_EVENTS = realsyscall.IN_ALL_EVENTS
const IN_ATTRIB = realsyscall.IN_ATTRIB
const IN_CLASSA_HOST = realsyscall.IN_CLASSA_HOST
const IN_CLASSA_MAX = realsyscall.IN_CLASSA_MAX
const IN_CLASSA_NET = realsyscall.IN_CLASSA_NET
const IN_CLASSA_NSHIFT = realsyscall.IN_CLASSA_NSHIFT
const IN_CLASSB_HOST = realsyscall.IN_CLASSB_HOST
const IN_CLASSB_MAX = realsyscall.IN_CLASSB_MAX
const IN_CLASSB_NET = realsyscall.IN_CLASSB_NET
const IN_CLASSB_NSHIFT = realsyscall.IN_CLASSB_NSHIFT
const IN_CLASSC_HOST = realsyscall.IN_CLASSC_HOST
const IN_CLASSC_NET = realsyscall.IN_CLASSC_NET
const IN_CLASSC_NSHIFT = realsyscall.IN_CLASSC_NSHIFT
const IN_CLOEXEC = realsyscall.IN_CLOEXEC
const IN_CLOSE = realsyscall.IN_CLOSE
const IN_CLOSE_NOWRITE = realsyscall.IN_CLOSE_NOWRITE
const IN_CLOSE_WRITE = realsyscall.IN_CLOSE_WRITE
const IN_CREATE = realsyscall.IN_CREATE
const IN_DELETE = realsyscall.IN_DELETE
const IN_DELETE_SELF = realsyscall.IN_DELETE_SELF
const IN_DONT_FOLLOW = realsyscall.IN_DONT_FOLLOW
const IN_EXCL_UNLINK = realsyscall.IN_EXCL_UNLINK
const IN_IGNORED = realsyscall.IN_IGNORED
const IN_ISDIR = realsyscall.IN_ISDIR
const IN_LOOPBACKNET = realsyscall.IN_LOOPBACKNET
const IN_MASK_ADD = realsyscall.IN_MASK_ADD
const IN_MODIFY = realsyscall.IN_MODIFY
const IN_MOVE = realsyscall.IN_MOVE
const IN_MOVED_FROM = realsyscall.IN_MOVED_FROM
const IN_MOVED_TO = realsyscall.IN_MOVED_TO
const IN_MOVE_SELF = realsyscall.IN_MOVE_SELF
const IN_NONBLOCK = realsyscall.IN_NONBLOCK
const IN_ONESHOT = realsyscall.IN_ONESHOT
const IN_ONLYDIR = realsyscall.IN_ONLYDIR
const IN_OPEN = realsyscall.IN_OPEN
const IN_Q_OVERFLOW = realsyscall.IN_Q_OVERFLOW
const IN_UNMOUNT = realsyscall.IN_UNMOUNT

type IPMreq = realsyscall.IPMreq
type IPMreqn = realsyscall.IPMreqn

const IPPROTO_AH = realsyscall.IPPROTO_AH
const IPPROTO_COMP = realsyscall.IPPROTO_COMP
const IPPROTO_DCCP = realsyscall.IPPROTO_DCCP
const IPPROTO_DSTOPTS = realsyscall.IPPROTO_DSTOPTS
const IPPROTO_EGP = realsyscall.IPPROTO_EGP
const IPPROTO_ENCAP = realsyscall.IPPROTO_ENCAP
const IPPROTO_ESP = realsyscall.IPPROTO_ESP
const IPPROTO_FRAGMENT = realsyscall.IPPROTO_FRAGMENT
const IPPROTO_GRE = realsyscall.IPPROTO_GRE
const IPPROTO_HOPOPTS = realsyscall.IPPROTO_HOPOPTS
const IPPROTO_ICMP = realsyscall.IPPROTO_ICMP
const IPPROTO_ICMPV6 = realsyscall.IPPROTO_ICMPV6
const IPPROTO_IDP = realsyscall.IPPROTO_IDP
const IPPROTO_IGMP = realsyscall.IPPROTO_IGMP
const IPPROTO_IP = realsyscall.IPPROTO_IP
const IPPROTO_IPIP = realsyscall.IPPROTO_IPIP
const IPPROTO_IPV6 = realsyscall.IPPROTO_IPV6
const IPPROTO_MTP = realsyscall.IPPROTO_MTP
const IPPROTO_NONE = realsyscall.IPPROTO_NONE
const IPPROTO_PIM = realsyscall.IPPROTO_PIM
const IPPROTO_PUP = realsyscall.IPPROTO_PUP
const IPPROTO_RAW = realsyscall.IPPROTO_RAW
const IPPROTO_ROUTING = realsyscall.IPPROTO_ROUTING
const IPPROTO_RSVP = realsyscall.IPPROTO_RSVP
const IPPROTO_SCTP = realsyscall.IPPROTO_SCTP
const IPPROTO_TCP = realsyscall.IPPROTO_TCP
const IPPROTO_TP = realsyscall.IPPROTO_TP
const IPPROTO_UDP = realsyscall.IPPROTO_UDP
const IPPROTO_UDPLITE = realsyscall.IPPROTO_UDPLITE
const IPV6_2292DSTOPTS = realsyscall.IPV6_2292DSTOPTS
const IPV6_2292HOPLIMIT = realsyscall.IPV6_2292HOPLIMIT
const IPV6_2292HOPOPTS = realsyscall.IPV6_2292HOPOPTS
const IPV6_2292PKTINFO = realsyscall.IPV6_2292PKTINFO
const IPV6_2292PKTOPTIONS = realsyscall.IPV6_2292PKTOPTIONS
const IPV6_2292RTHDR = realsyscall.IPV6_2292RTHDR
const IPV6_ADDRFORM = realsyscall.IPV6_ADDRFORM
const IPV6_ADD_MEMBERSHIP = realsyscall.IPV6_ADD_MEMBERSHIP
const IPV6_AUTHHDR = realsyscall.IPV6_AUTHHDR
const IPV6_CHECKSUM = realsyscall.IPV6_CHECKSUM
const IPV6_DROP_MEMBERSHIP = realsyscall.IPV6_DROP_MEMBERSHIP
const IPV6_DSTOPTS = realsyscall.IPV6_DSTOPTS
const IPV6_HOPLIMIT = realsyscall.IPV6_HOPLIMIT
const IPV6_HOPOPTS = realsyscall.IPV6_HOPOPTS
const IPV6_IPSEC_POLICY = realsyscall.IPV6_IPSEC_POLICY
const IPV6_JOIN_ANYCAST = realsyscall.IPV6_JOIN_ANYCAST
const IPV6_JOIN_GROUP = realsyscall.IPV6_JOIN_GROUP
const IPV6_LEAVE_ANYCAST = realsyscall.IPV6_LEAVE_ANYCAST
const IPV6_LEAVE_GROUP = realsyscall.IPV6_LEAVE_GROUP
const IPV6_MTU = realsyscall.IPV6_MTU
const IPV6_MTU_DISCOVER = realsyscall.IPV6_MTU_DISCOVER
const IPV6_MULTICAST_HOPS = realsyscall.IPV6_MULTICAST_HOPS
const IPV6_MULTICAST_IF = realsyscall.IPV6_MULTICAST_IF
const IPV6_MULTICAST_LOOP = realsyscall.IPV6_MULTICAST_LOOP
const IPV6_NEXTHOP = realsyscall.IPV6_NEXTHOP
const IPV6_PKTINFO = realsyscall.IPV6_PKTINFO
const IPV6_PMTUDISC_DO = realsyscall.IPV6_PMTUDISC_DO
const IPV6_PMTUDISC_DONT = realsyscall.IPV6_PMTUDISC_DONT
const IPV6_PMTUDISC_PROBE = realsyscall.IPV6_PMTUDISC_PROBE
const IPV6_PMTUDISC_WANT = realsyscall.IPV6_PMTUDISC_WANT
const IPV6_RECVDSTOPTS = realsyscall.IPV6_RECVDSTOPTS
const IPV6_RECVERR = realsyscall.IPV6_RECVERR
const IPV6_RECVHOPLIMIT = realsyscall.IPV6_RECVHOPLIMIT
const IPV6_RECVHOPOPTS = realsyscall.IPV6_RECVHOPOPTS
const IPV6_RECVPKTINFO = realsyscall.IPV6_RECVPKTINFO
const IPV6_RECVRTHDR = realsyscall.IPV6_RECVRTHDR
const IPV6_RECVTCLASS = realsyscall.IPV6_RECVTCLASS
const IPV6_ROUTER_ALERT = realsyscall.IPV6_ROUTER_ALERT
const IPV6_RTHDR = realsyscall.IPV6_RTHDR
const IPV6_RTHDRDSTOPTS = realsyscall.IPV6_RTHDRDSTOPTS
const IPV6_RTHDR_LOOSE = realsyscall.IPV6_RTHDR_LOOSE
const IPV6_RTHDR_STRICT = realsyscall.IPV6_RTHDR_STRICT
const IPV6_RTHDR_TYPE_0 = realsyscall.IPV6_RTHDR_TYPE_0
const IPV6_RXDSTOPTS = realsyscall.IPV6_RXDSTOPTS
const IPV6_RXHOPOPTS = realsyscall.IPV6_RXHOPOPTS
const IPV6_TCLASS = realsyscall.IPV6_TCLASS
const IPV6_UNICAST_HOPS = realsyscall.IPV6_UNICAST_HOPS
const IPV6_V6ONLY = realsyscall.IPV6_V6ONLY
const IPV6_XFRM_POLICY = realsyscall.IPV6_XFRM_POLICY
const IP_ADD_MEMBERSHIP = realsyscall.IP_ADD_MEMBERSHIP
const IP_ADD_SOURCE_MEMBERSHIP = realsyscall.IP_ADD_SOURCE_MEMBERSHIP
const IP_BLOCK_SOURCE = realsyscall.IP_BLOCK_SOURCE
const IP_DEFAULT_MULTICAST_LOOP = realsyscall.IP_DEFAULT_MULTICAST_LOOP
const IP_DEFAULT_MULTICAST_TTL = realsyscall.IP_DEFAULT_MULTICAST_TTL
const IP_DF = realsyscall.IP_DF
const IP_DROP_MEMBERSHIP = realsyscall.IP_DROP_MEMBERSHIP
const IP_DROP_SOURCE_MEMBERSHIP = realsyscall.IP_DROP_SOURCE_MEMBERSHIP
const IP_FREEBIND = realsyscall.IP_FREEBIND
const IP_HDRINCL = realsyscall.IP_HDRINCL
const IP_IPSEC_POLICY = realsyscall.IP_IPSEC_POLICY
const IP_MAXPACKET = realsyscall.IP_MAXPACKET
const IP_MAX_MEMBERSHIPS = realsyscall.IP_MAX_MEMBERSHIPS
const IP_MF = realsyscall.IP_MF
const IP_MINTTL = realsyscall.IP_MINTTL
const IP_MSFILTER = realsyscall.IP_MSFILTER
const IP_MSS = realsyscall.IP_MSS
const IP_MTU = realsyscall.IP_MTU
const IP_MTU_DISCOVER = realsyscall.IP_MTU_DISCOVER
const IP_MULTICAST_IF = realsyscall.IP_MULTICAST_IF
const IP_MULTICAST_LOOP = realsyscall.IP_MULTICAST_LOOP
const IP_MULTICAST_TTL = realsyscall.IP_MULTICAST_TTL
const IP_OFFMASK = realsyscall.IP_OFFMASK
const IP_OPTIONS = realsyscall.IP_OPTIONS
const IP_ORIGDSTADDR = realsyscall.IP_ORIGDSTADDR
const IP_PASSSEC = realsyscall.IP_PASSSEC
const IP_PKTINFO = realsyscall.IP_PKTINFO
const IP_PKTOPTIONS = realsyscall.IP_PKTOPTIONS
const IP_PMTUDISC = realsyscall.IP_PMTUDISC
const IP_PMTUDISC_DO = realsyscall.IP_PMTUDISC_DO
const IP_PMTUDISC_DONT = realsyscall.IP_PMTUDISC_DONT
const IP_PMTUDISC_PROBE = realsyscall.IP_PMTUDISC_PROBE
const IP_PMTUDISC_WANT = realsyscall.IP_PMTUDISC_WANT
const IP_RECVERR = realsyscall.IP_RECVERR
const IP_RECVOPTS = realsyscall.IP_RECVOPTS
const IP_RECVORIGDSTADDR = realsyscall.IP_RECVORIGDSTADDR
const IP_RECVRETOPTS = realsyscall.IP_RECVRETOPTS
const IP_RECVTOS = realsyscall.IP_RECVTOS
const IP_RECVTTL = realsyscall.IP_RECVTTL
const IP_RETOPTS = realsyscall.IP_RETOPTS
const IP_RF = realsyscall.IP_RF
const IP_ROUTER_ALERT = realsyscall.IP_ROUTER_ALERT
const IP_TOS = realsyscall.IP_TOS
const IP_TRANSPARENT = realsyscall.IP_TRANSPARENT
const IP_TTL = realsyscall.IP_TTL
const IP_UNBLOCK_SOURCE = realsyscall.IP_UNBLOCK_SOURCE
const IP_XFRM_POLICY = realsyscall.IP_XFRM_POLICY

type IPv6MTUInfo = realsyscall.IPv6MTUInfo
type IPv6Mreq = realsyscall.IPv6Mreq

const ISIG = realsyscall.ISIG
const ISTRIP = realsyscall.ISTRIP
const IUCLC = realsyscall.IUCLC
const IUTF8 = realsyscall.IUTF8
const IXANY = realsyscall.IXANY
const IXOFF = realsyscall.IXOFF
const IXON = realsyscall.IXON

type IfAddrmsg = realsyscall.IfAddrmsg
type IfInfomsg = realsyscall.IfInfomsg

const ImplementsGetwd = realsyscall.ImplementsGetwd

type Inet4Pktinfo = realsyscall.Inet4Pktinfo
type Inet6Pktinfo = realsyscall.Inet6Pktinfo

var InotifyAddWatch = realsyscall.InotifyAddWatch

type InotifyEvent = realsyscall.InotifyEvent

var InotifyInit = realsyscall.InotifyInit
var InotifyInit1 = realsyscall.InotifyInit1
var InotifyRmWatch = realsyscall.InotifyRmWatch
var Ioperm = realsyscall.Ioperm
var Iopl = realsyscall.Iopl

type Iovec = realsyscall.Iovec

var Klogctl = realsyscall.Klogctl

const LINUX_REBOOT_CMD_CAD_OFF = realsyscall.LINUX_REBOOT_CMD_CAD_OFF
const LINUX_REBOOT_CMD_CAD_ON = realsyscall.LINUX_REBOOT_CMD_CAD_ON
const LINUX_REBOOT_CMD_HALT = realsyscall.LINUX_REBOOT_CMD_HALT
const LINUX_REBOOT_CMD_KEXEC = realsyscall.LINUX_REBOOT_CMD_KEXEC
const LINUX_REBOOT_CMD_POWER_OFF = realsyscall.LINUX_REBOOT_CMD_POWER_OFF
const LINUX_REBOOT_CMD_RESTART = realsyscall.LINUX_REBOOT_CMD_RESTART
const LINUX_REBOOT_CMD_RESTART2 = realsyscall.LINUX_REBOOT_CMD_RESTART2
const LINUX_REBOOT_CMD_SW_SUSPEND = realsyscall.LINUX_REBOOT_CMD_SW_SUSPEND
const LINUX_REBOOT_MAGIC1 = realsyscall.LINUX_REBOOT_MAGIC1
const LINUX_REBOOT_MAGIC2 = realsyscall.LINUX_REBOOT_MAGIC2
const LOCK_EX = realsyscall.LOCK_EX
const LOCK_NB = realsyscall.LOCK_NB
const LOCK_SH = realsyscall.LOCK_SH
const LOCK_UN = realsyscall.LOCK_UN

var Lchown = realsyscall.Lchown

type Linger = realsyscall.Linger

var Link = realsyscall.Link
var Listen = realsyscall.Listen
var Listxattr = realsyscall.Listxattr
var LsfJump = realsyscall.LsfJump
var LsfSocket = realsyscall.LsfSocket
var LsfStmt = realsyscall.LsfStmt
var Lstat = realsyscall.Lstat

const MADV_DOFORK = realsyscall.MADV_DOFORK
const MADV_DONTFORK = realsyscall.MADV_DONTFORK
const MADV_DONTNEED = realsyscall.MADV_DONTNEED
const MADV_HUGEPAGE = realsyscall.MADV_HUGEPAGE
const MADV_HWPOISON = realsyscall.MADV_HWPOISON
const MADV_MERGEABLE = realsyscall.MADV_MERGEABLE
const MADV_NOHUGEPAGE = realsyscall.MADV_NOHUGEPAGE
const MADV_NORMAL = realsyscall.MADV_NORMAL
const MADV_RANDOM = realsyscall.MADV_RANDOM
const MADV_REMOVE = realsyscall.MADV_REMOVE
const MADV_SEQUENTIAL = realsyscall.MADV_SEQUENTIAL
const MADV_UNMERGEABLE = realsyscall.MADV_UNMERGEABLE
const MADV_WILLNEED = realsyscall.MADV_WILLNEED
const MAP_32BIT = realsyscall.MAP_32BIT
const MAP_ANON = realsyscall.MAP_ANON
const MAP_ANONYMOUS = realsyscall.MAP_ANONYMOUS
const MAP_DENYWRITE = realsyscall.MAP_DENYWRITE
const MAP_EXECUTABLE = realsyscall.MAP_EXECUTABLE
const MAP_FILE = realsyscall.MAP_FILE
const MAP_FIXED = realsyscall.MAP_FIXED
const MAP_GROWSDOWN = realsyscall.MAP_GROWSDOWN
const MAP_HUGETLB = realsyscall.MAP_HUGETLB
const MAP_LOCKED = realsyscall.MAP_LOCKED
const MAP_NONBLOCK = realsyscall.MAP_NONBLOCK
const MAP_NORESERVE = realsyscall.MAP_NORESERVE
const MAP_POPULATE = realsyscall.MAP_POPULATE
const MAP_PRIVATE = realsyscall.MAP_PRIVATE
const MAP_SHARED = realsyscall.MAP_SHARED
const MAP_STACK = realsyscall.MAP_STACK
const MAP_TYPE = realsyscall.MAP_TYPE
const MCL_CURRENT = realsyscall.MCL_CURRENT
const MCL_FUTURE = realsyscall.MCL_FUTURE
const MNT_DETACH = realsyscall.MNT_DETACH
const MNT_EXPIRE = realsyscall.MNT_EXPIRE
const MNT_FORCE = realsyscall.MNT_FORCE
const MSG_CMSG_CLOEXEC = realsyscall.MSG_CMSG_CLOEXEC
const MSG_CONFIRM = realsyscall.MSG_CONFIRM
const MSG_CTRUNC = realsyscall.MSG_CTRUNC
const MSG_DONTROUTE = realsyscall.MSG_DONTROUTE
const MSG_DONTWAIT = realsyscall.MSG_DONTWAIT
const MSG_EOR = realsyscall.MSG_EOR
const MSG_ERRQUEUE = realsyscall.MSG_ERRQUEUE
const MSG_FASTOPEN = realsyscall.MSG_FASTOPEN
const MSG_FIN = realsyscall.MSG_FIN
const MSG_MORE = realsyscall.MSG_MORE
const MSG_NOSIGNAL = realsyscall.MSG_NOSIGNAL
const MSG_OOB = realsyscall.MSG_OOB
const MSG_PEEK = realsyscall.MSG_PEEK
const MSG_PROXY = realsyscall.MSG_PROXY
const MSG_RST = realsyscall.MSG_RST
const MSG_SYN = realsyscall.MSG_SYN
const MSG_TRUNC = realsyscall.MSG_TRUNC
const MSG_TRYHARD = realsyscall.MSG_TRYHARD
const MSG_WAITALL = realsyscall.MSG_WAITALL
const MSG_WAITFORONE = realsyscall.MSG_WAITFORONE
const MS_ACTIVE = realsyscall.MS_ACTIVE
const MS_ASYNC = realsyscall.MS_ASYNC
const MS_BIND = realsyscall.MS_BIND
const MS_DIRSYNC = realsyscall.MS_DIRSYNC
const MS_INVALIDATE = realsyscall.MS_INVALIDATE
const MS_I_VERSION = realsyscall.MS_I_VERSION
const MS_KERNMOUNT = realsyscall.MS_KERNMOUNT
const MS_MANDLOCK = realsyscall.MS_MANDLOCK
const MS_MGC_MSK = realsyscall.MS_MGC_MSK
const MS_MGC_VAL = realsyscall.MS_MGC_VAL
const MS_MOVE = realsyscall.MS_MOVE
const MS_NOATIME = realsyscall.MS_NOATIME
const MS_NODEV = realsyscall.MS_NODEV
const MS_NODIRATIME = realsyscall.MS_NODIRATIME
const MS_NOEXEC = realsyscall.MS_NOEXEC
const MS_NOSUID = realsyscall.MS_NOSUID
const MS_NOUSER = realsyscall.MS_NOUSER
const MS_POSIXACL = realsyscall.MS_POSIXACL
const MS_PRIVATE = realsyscall.MS_PRIVATE
const MS_RDONLY = realsyscall.MS_RDONLY
const MS_REC = realsyscall.MS_REC
const MS_RELATIME = realsyscall.MS_RELATIME
const MS_REMOUNT = realsyscall.MS_REMOUNT
const MS_RMT_MASK = realsyscall.MS_RMT_MASK
const MS_SHARED = realsyscall.MS_SHARED
const MS_SILENT = realsyscall.MS_SILENT
const MS_SLAVE = realsyscall.MS_SLAVE
const MS_STRICTATIME = realsyscall.MS_STRICTATIME
const MS_SYNC = realsyscall.MS_SYNC
const MS_SYNCHRONOUS = realsyscall.MS_SYNCHRONOUS
const MS_UNBINDABLE = realsyscall.MS_UNBINDABLE

var Madvise = realsyscall.Madvise
var Mkdir = realsyscall.Mkdir
var Mkdirat = realsyscall.Mkdirat
var Mkfifo = realsyscall.Mkfifo
var Mknod = realsyscall.Mknod
var Mknodat = realsyscall.Mknodat
var Mlock = realsyscall.Mlock
var Mlockall = realsyscall.Mlockall
var Mmap = realsyscall.Mmap
var Mprotect = realsyscall.Mprotect

type Msghdr = realsyscall.Msghdr

var Munlock = realsyscall.Munlock
var Munlockall = realsyscall.Munlockall
var Munmap = realsyscall.Munmap

const NAME_MAX = realsyscall.NAME_MAX
const NETLINK_ADD_MEMBERSHIP = realsyscall.NETLINK_ADD_MEMBERSHIP
const NETLINK_AUDIT = realsyscall.NETLINK_AUDIT
const NETLINK_BROADCAST_ERROR = realsyscall.NETLINK_BROADCAST_ERROR
const NETLINK_CONNECTOR = realsyscall.NETLINK_CONNECTOR
const NETLINK_DNRTMSG = realsyscall.NETLINK_DNRTMSG
const NETLINK_DROP_MEMBERSHIP = realsyscall.NETLINK_DROP_MEMBERSHIP
const NETLINK_ECRYPTFS = realsyscall.NETLINK_ECRYPTFS
const NETLINK_FIB_LOOKUP = realsyscall.NETLINK_FIB_LOOKUP
const NETLINK_FIREWALL = realsyscall.NETLINK_FIREWALL
const NETLINK_GENERIC = realsyscall.NETLINK_GENERIC
const NETLINK_INET_DIAG = realsyscall.NETLINK_INET_DIAG
const NETLINK_IP6_FW = realsyscall.NETLINK_IP6_FW
const NETLINK_ISCSI = realsyscall.NETLINK_ISCSI
const NETLINK_KOBJECT_UEVENT = realsyscall.NETLINK_KOBJECT_UEVENT
const NETLINK_NETFILTER = realsyscall.NETLINK_NETFILTER
const NETLINK_NFLOG = realsyscall.NETLINK_NFLOG
const NETLINK_NO_ENOBUFS = realsyscall.NETLINK_NO_ENOBUFS
const NETLINK_PKTINFO = realsyscall.NETLINK_PKTINFO
const NETLINK_ROUTE = realsyscall.NETLINK_ROUTE
const NETLINK_SCSITRANSPORT = realsyscall.NETLINK_SCSITRANSPORT
const NETLINK_SELINUX = realsyscall.NETLINK_SELINUX
const NETLINK_UNUSED = realsyscall.NETLINK_UNUSED
const NETLINK_USERSOCK = realsyscall.NETLINK_USERSOCK
const NETLINK_XFRM = realsyscall.NETLINK_XFRM
const NLA_ALIGNTO = realsyscall.NLA_ALIGNTO
const NLA_F_NESTED = realsyscall.NLA_F_NESTED
const NLA_F_NET_BYTEORDER = realsyscall.NLA_F_NET_BYTEORDER
const NLA_HDRLEN = realsyscall.NLA_HDRLEN
const NLMSG_ALIGNTO = realsyscall.NLMSG_ALIGNTO
const NLMSG_DONE = realsyscall.NLMSG_DONE
const NLMSG_ERROR = realsyscall.NLMSG_ERROR
const NLMSG_HDRLEN = realsyscall.NLMSG_HDRLEN
const NLMSG_MIN_TYPE = realsyscall.NLMSG_MIN_TYPE
const NLMSG_NOOP = realsyscall.NLMSG_NOOP
const NLMSG_OVERRUN = realsyscall.NLMSG_OVERRUN
const NLM_F_ACK = realsyscall.NLM_F_ACK
const NLM_F_APPEND = realsyscall.NLM_F_APPEND
const NLM_F_ATOMIC = realsyscall.NLM_F_ATOMIC
const NLM_F_CREATE = realsyscall.NLM_F_CREATE
const NLM_F_DUMP = realsyscall.NLM_F_DUMP
const NLM_F_ECHO = realsyscall.NLM_F_ECHO
const NLM_F_EXCL = realsyscall.NLM_F_EXCL
const NLM_F_MATCH = realsyscall.NLM_F_MATCH
const NLM_F_MULTI = realsyscall.NLM_F_MULTI
const NLM_F_REPLACE = realsyscall.NLM_F_REPLACE
const NLM_F_REQUEST = realsyscall.NLM_F_REQUEST
const NLM_F_ROOT = realsyscall.NLM_F_ROOT
const NOFLSH = realsyscall.NOFLSH

var Nanosleep = realsyscall.Nanosleep

type NetlinkMessage = realsyscall.NetlinkMessage

var NetlinkRIB = realsyscall.NetlinkRIB

type NetlinkRouteAttr = realsyscall.NetlinkRouteAttr
type NetlinkRouteRequest = realsyscall.NetlinkRouteRequest
type NlAttr = realsyscall.NlAttr
type NlMsgerr = realsyscall.NlMsgerr
type NlMsghdr = realsyscall.NlMsghdr

var NsecToTimespec = realsyscall.NsecToTimespec
var NsecToTimeval = realsyscall.NsecToTimeval

const OCRNL = realsyscall.OCRNL
const OFDEL = realsyscall.OFDEL
const OFILL = realsyscall.OFILL
const OLCUC = realsyscall.OLCUC
const ONLCR = realsyscall.ONLCR
const ONLRET = realsyscall.ONLRET
const ONOCR = realsyscall.ONOCR
const OPOST = realsyscall.OPOST
const O_ACCMODE = realsyscall.O_ACCMODE
const O_APPEND = realsyscall.O_APPEND
const O_ASYNC = realsyscall.O_ASYNC
const O_CLOEXEC = realsyscall.O_CLOEXEC
const O_CREAT = realsyscall.O_CREAT
const O_DIRECT = realsyscall.O_DIRECT
const O_DIRECTORY = realsyscall.O_DIRECTORY
const O_DSYNC = realsyscall.O_DSYNC
const O_EXCL = realsyscall.O_EXCL
const O_FSYNC = realsyscall.O_FSYNC
const O_LARGEFILE = realsyscall.O_LARGEFILE
const O_NDELAY = realsyscall.O_NDELAY
const O_NOATIME = realsyscall.O_NOATIME
const O_NOCTTY = realsyscall.O_NOCTTY
const O_NOFOLLOW = realsyscall.O_NOFOLLOW
const O_NONBLOCK = realsyscall.O_NONBLOCK
const O_RDONLY = realsyscall.O_RDONLY
const O_RDWR = realsyscall.O_RDWR
const O_RSYNC = realsyscall.O_RSYNC
const O_SYNC = realsyscall.O_SYNC
const O_TRUNC = realsyscall.O_TRUNC
const O_WRONLY = realsyscall.O_WRONLY

var Open = realsyscall.Open
var Openat = realsyscall.Openat

const PACKET_ADD_MEMBERSHIP = realsyscall.PACKET_ADD_MEMBERSHIP
const PACKET_BROADCAST = realsyscall.PACKET_BROADCAST
const PACKET_DROP_MEMBERSHIP = realsyscall.PACKET_DROP_MEMBERSHIP
const PACKET_FASTROUTE = realsyscall.PACKET_FASTROUTE
const PACKET_HOST = realsyscall.PACKET_HOST
const PACKET_LOOPBACK = realsyscall.PACKET_LOOPBACK
const PACKET_MR_ALLMULTI = realsyscall.PACKET_MR_ALLMULTI
const PACKET_MR_MULTICAST = realsyscall.PACKET_MR_MULTICAST
const PACKET_MR_PROMISC = realsyscall.PACKET_MR_PROMISC
const PACKET_MULTICAST = realsyscall.PACKET_MULTICAST
const PACKET_OTHERHOST = realsyscall.PACKET_OTHERHOST
const PACKET_OUTGOING = realsyscall.PACKET_OUTGOING
const PACKET_RECV_OUTPUT = realsyscall.PACKET_RECV_OUTPUT
const PACKET_RX_RING = realsyscall.PACKET_RX_RING
const PACKET_STATISTICS = realsyscall.PACKET_STATISTICS
const PARENB = realsyscall.PARENB
const PARMRK = realsyscall.PARMRK
const PARODD = realsyscall.PARODD
const PENDIN = realsyscall.PENDIN
const PRIO_PGRP = realsyscall.PRIO_PGRP
const PRIO_PROCESS = realsyscall.PRIO_PROCESS
const PRIO_USER = realsyscall.PRIO_USER
const PROT_EXEC = realsyscall.PROT_EXEC
const PROT_GROWSDOWN = realsyscall.PROT_GROWSDOWN
const PROT_GROWSUP = realsyscall.PROT_GROWSUP
const PROT_NONE = realsyscall.PROT_NONE
const PROT_READ = realsyscall.PROT_READ
const PROT_WRITE = realsyscall.PROT_WRITE
const PR_CAPBSET_DROP = realsyscall.PR_CAPBSET_DROP
const PR_CAPBSET_READ = realsyscall.PR_CAPBSET_READ
const PR_ENDIAN_BIG = realsyscall.PR_ENDIAN_BIG
const PR_ENDIAN_LITTLE = realsyscall.PR_ENDIAN_LITTLE
const PR_ENDIAN_PPC_LITTLE = realsyscall.PR_ENDIAN_PPC_LITTLE
const PR_FPEMU_NOPRINT = realsyscall.PR_FPEMU_NOPRINT
const PR_FPEMU_SIGFPE = realsyscall.PR_FPEMU_SIGFPE
const PR_FP_EXC_ASYNC = realsyscall.PR_FP_EXC_ASYNC
const PR_FP_EXC_DISABLED = realsyscall.PR_FP_EXC_DISABLED
const PR_FP_EXC_DIV = realsyscall.PR_FP_EXC_DIV
const PR_FP_EXC_INV = realsyscall.PR_FP_EXC_INV
const PR_FP_EXC_NONRECOV = realsyscall.PR_FP_EXC_NONRECOV
const PR_FP_EXC_OVF = realsyscall.PR_FP_EXC_OVF
const PR_FP_EXC_PRECISE = realsyscall.PR_FP_EXC_PRECISE
const PR_FP_EXC_RES = realsyscall.PR_FP_EXC_RES
const PR_FP_EXC_SW_ENABLE = realsyscall.PR_FP_EXC_SW_ENABLE
const PR_FP_EXC_UND = realsyscall.PR_FP_EXC_UND
const PR_GET_DUMPABLE = realsyscall.PR_GET_DUMPABLE
const PR_GET_ENDIAN = realsyscall.PR_GET_ENDIAN
const PR_GET_FPEMU = realsyscall.PR_GET_FPEMU
const PR_GET_FPEXC = realsyscall.PR_GET_FPEXC
const PR_GET_KEEPCAPS = realsyscall.PR_GET_KEEPCAPS
const PR_GET_NAME = realsyscall.PR_GET_NAME
const PR_GET_PDEATHSIG = realsyscall.PR_GET_PDEATHSIG
const PR_GET_SECCOMP = realsyscall.PR_GET_SECCOMP
const PR_GET_SECUREBITS = realsyscall.PR_GET_SECUREBITS
const PR_GET_TIMERSLACK = realsyscall.PR_GET_TIMERSLACK
const PR_GET_TIMING = realsyscall.PR_GET_TIMING
const PR_GET_TSC = realsyscall.PR_GET_TSC
const PR_GET_UNALIGN = realsyscall.PR_GET_UNALIGN
const PR_MCE_KILL = realsyscall.PR_MCE_KILL
const PR_MCE_KILL_CLEAR = realsyscall.PR_MCE_KILL_CLEAR
const PR_MCE_KILL_DEFAULT = realsyscall.PR_MCE_KILL_DEFAULT
const PR_MCE_KILL_EARLY = realsyscall.PR_MCE_KILL_EARLY
const PR_MCE_KILL_GET = realsyscall.PR_MCE_KILL_GET
const PR_MCE_KILL_LATE = realsyscall.PR_MCE_KILL_LATE
const PR_MCE_KILL_SET = realsyscall.PR_MCE_KILL_SET
const PR_SET_DUMPABLE = realsyscall.PR_SET_DUMPABLE
const PR_SET_ENDIAN = realsyscall.PR_SET_ENDIAN
const PR_SET_FPEMU = realsyscall.PR_SET_FPEMU
const PR_SET_FPEXC = realsyscall.PR_SET_FPEXC
const PR_SET_KEEPCAPS = realsyscall.PR_SET_KEEPCAPS
const PR_SET_NAME = realsyscall.PR_SET_NAME
const PR_SET_PDEATHSIG = realsyscall.PR_SET_PDEATHSIG
const PR_SET_PTRACER = realsyscall.PR_SET_PTRACER
const PR_SET_SECCOMP = realsyscall.PR_SET_SECCOMP
const PR_SET_SECUREBITS = realsyscall.PR_SET_SECUREBITS
const PR_SET_TIMERSLACK = realsyscall.PR_SET_TIMERSLACK
const PR_SET_TIMING = realsyscall.PR_SET_TIMING
const PR_SET_TSC = realsyscall.PR_SET_TSC
const PR_SET_UNALIGN = realsyscall.PR_SET_UNALIGN
const PR_TASK_PERF_EVENTS_DISABLE = realsyscall.PR_TASK_PERF_EVENTS_DISABLE
const PR_TASK_PERF_EVENTS_ENABLE = realsyscall.PR_TASK_PERF_EVENTS_ENABLE
const PR_TIMING_STATISTICAL = realsyscall.PR_TIMING_STATISTICAL
const PR_TIMING_TIMESTAMP = realsyscall.PR_TIMING_TIMESTAMP
const PR_TSC_ENABLE = realsyscall.PR_TSC_ENABLE
const PR_TSC_SIGSEGV = realsyscall.PR_TSC_SIGSEGV
const PR_UNALIGN_NOPRINT = realsyscall.PR_UNALIGN_NOPRINT
const PR_UNALIGN_SIGBUS = realsyscall.PR_UNALIGN_SIGBUS
const PTRACE_ARCH_PRCTL = realsyscall.PTRACE_ARCH_PRCTL
const PTRACE_ATTACH = realsyscall.PTRACE_ATTACH
const PTRACE_CONT = realsyscall.PTRACE_CONT
const PTRACE_DETACH = realsyscall.PTRACE_DETACH
const PTRACE_EVENT_CLONE = realsyscall.PTRACE_EVENT_CLONE
const PTRACE_EVENT_EXEC = realsyscall.PTRACE_EVENT_EXEC
const PTRACE_EVENT_EXIT = realsyscall.PTRACE_EVENT_EXIT
const PTRACE_EVENT_FORK = realsyscall.PTRACE_EVENT_FORK
const PTRACE_EVENT_VFORK = realsyscall.PTRACE_EVENT_VFORK
const PTRACE_EVENT_VFORK_DONE = realsyscall.PTRACE_EVENT_VFORK_DONE
const PTRACE_GETEVENTMSG = realsyscall.PTRACE_GETEVENTMSG
const PTRACE_GETFPREGS = realsyscall.PTRACE_GETFPREGS
const PTRACE_GETFPXREGS = realsyscall.PTRACE_GETFPXREGS
const PTRACE_GETREGS = realsyscall.PTRACE_GETREGS
const PTRACE_GETREGSET = realsyscall.PTRACE_GETREGSET
const PTRACE_GETSIGINFO = realsyscall.PTRACE_GETSIGINFO
const PTRACE_GET_THREAD_AREA = realsyscall.PTRACE_GET_THREAD_AREA
const PTRACE_KILL = realsyscall.PTRACE_KILL
const PTRACE_OLDSETOPTIONS = realsyscall.PTRACE_OLDSETOPTIONS
const PTRACE_O_MASK = realsyscall.PTRACE_O_MASK
const PTRACE_O_TRACECLONE = realsyscall.PTRACE_O_TRACECLONE
const PTRACE_O_TRACEEXEC = realsyscall.PTRACE_O_TRACEEXEC
const PTRACE_O_TRACEEXIT = realsyscall.PTRACE_O_TRACEEXIT
const PTRACE_O_TRACEFORK = realsyscall.PTRACE_O_TRACEFORK
const PTRACE_O_TRACESYSGOOD = realsyscall.PTRACE_O_TRACESYSGOOD
const PTRACE_O_TRACEVFORK = realsyscall.PTRACE_O_TRACEVFORK
const PTRACE_O_TRACEVFORKDONE = realsyscall.PTRACE_O_TRACEVFORKDONE
const PTRACE_PEEKDATA = realsyscall.PTRACE_PEEKDATA
const PTRACE_PEEKTEXT = realsyscall.PTRACE_PEEKTEXT
const PTRACE_PEEKUSR = realsyscall.PTRACE_PEEKUSR
const PTRACE_POKEDATA = realsyscall.PTRACE_POKEDATA
const PTRACE_POKETEXT = realsyscall.PTRACE_POKETEXT
const PTRACE_POKEUSR = realsyscall.PTRACE_POKEUSR
const PTRACE_SETFPREGS = realsyscall.PTRACE_SETFPREGS
const PTRACE_SETFPXREGS = realsyscall.PTRACE_SETFPXREGS
const PTRACE_SETOPTIONS = realsyscall.PTRACE_SETOPTIONS
const PTRACE_SETREGS = realsyscall.PTRACE_SETREGS
const PTRACE_SETREGSET = realsyscall.PTRACE_SETREGSET
const PTRACE_SETSIGINFO = realsyscall.PTRACE_SETSIGINFO
const PTRACE_SET_THREAD_AREA = realsyscall.PTRACE_SET_THREAD_AREA
const PTRACE_SINGLEBLOCK = realsyscall.PTRACE_SINGLEBLOCK
const PTRACE_SINGLESTEP = realsyscall.PTRACE_SINGLESTEP
const PTRACE_SYSCALL = realsyscall.PTRACE_SYSCALL
const PTRACE_SYSEMU = realsyscall.PTRACE_SYSEMU
const PTRACE_SYSEMU_SINGLESTEP = realsyscall.PTRACE_SYSEMU_SINGLESTEP
const PTRACE_TRACEME = realsyscall.PTRACE_TRACEME

var ParseDirent = realsyscall.ParseDirent
var ParseNetlinkMessage = realsyscall.ParseNetlinkMessage
var ParseNetlinkRouteAttr = realsyscall.ParseNetlinkRouteAttr
var ParseSocketControlMessage = realsyscall.ParseSocketControlMessage
var ParseUnixCredentials = realsyscall.ParseUnixCredentials
var ParseUnixRights = realsyscall.ParseUnixRights

const PathMax = realsyscall.PathMax

var Pause = realsyscall.Pause
var Pipe = realsyscall.Pipe
var Pipe2 = realsyscall.Pipe2
var PivotRoot = realsyscall.PivotRoot
var Pread = realsyscall.Pread

type ProcAttr = realsyscall.ProcAttr

var PtraceAttach = realsyscall.PtraceAttach
var PtraceCont = realsyscall.PtraceCont
var PtraceDetach = realsyscall.PtraceDetach
var PtraceGetEventMsg = realsyscall.PtraceGetEventMsg
var PtraceGetRegs = realsyscall.PtraceGetRegs
var PtracePeekData = realsyscall.PtracePeekData
var PtracePeekText = realsyscall.PtracePeekText
var PtracePokeData = realsyscall.PtracePokeData
var PtracePokeText = realsyscall.PtracePokeText

type PtraceRegs = realsyscall.PtraceRegs

var PtraceSetOptions = realsyscall.PtraceSetOptions
var PtraceSetRegs = realsyscall.PtraceSetRegs
var PtraceSingleStep = realsyscall.PtraceSingleStep
var PtraceSyscall = realsyscall.PtraceSyscall
var Pwrite = realsyscall.Pwrite

const RLIMIT_AS = realsyscall.RLIMIT_AS
const RLIMIT_CORE = realsyscall.RLIMIT_CORE
const RLIMIT_CPU = realsyscall.RLIMIT_CPU
const RLIMIT_DATA = realsyscall.RLIMIT_DATA
const RLIMIT_FSIZE = realsyscall.RLIMIT_FSIZE
const RLIMIT_NOFILE = realsyscall.RLIMIT_NOFILE
const RLIMIT_STACK = realsyscall.RLIMIT_STACK
const RLIM_INFINITY = realsyscall.RLIM_INFINITY
const RTAX_ADVMSS = realsyscall.RTAX_ADVMSS
const RTAX_CWND = realsyscall.RTAX_CWND
const RTAX_FEATURES = realsyscall.RTAX_FEATURES
const RTAX_FEATURE_ALLFRAG = realsyscall.RTAX_FEATURE_ALLFRAG
const RTAX_FEATURE_ECN = realsyscall.RTAX_FEATURE_ECN
const RTAX_FEATURE_SACK = realsyscall.RTAX_FEATURE_SACK
const RTAX_FEATURE_TIMESTAMP = realsyscall.RTAX_FEATURE_TIMESTAMP
const RTAX_HOPLIMIT = realsyscall.RTAX_HOPLIMIT
const RTAX_INITCWND = realsyscall.RTAX_INITCWND
const RTAX_INITRWND = realsyscall.RTAX_INITRWND
const RTAX_LOCK = realsyscall.RTAX_LOCK
const RTAX_MAX = realsyscall.RTAX_MAX
const RTAX_MTU = realsyscall.RTAX_MTU
const RTAX_REORDERING = realsyscall.RTAX_REORDERING
const RTAX_RTO_MIN = realsyscall.RTAX_RTO_MIN
const RTAX_RTT = realsyscall.RTAX_RTT
const RTAX_RTTVAR = realsyscall.RTAX_RTTVAR
const RTAX_SSTHRESH = realsyscall.RTAX_SSTHRESH
const RTAX_UNSPEC = realsyscall.RTAX_UNSPEC
const RTAX_WINDOW = realsyscall.RTAX_WINDOW
const RTA_ALIGNTO = realsyscall.RTA_ALIGNTO
const RTA_CACHEINFO = realsyscall.RTA_CACHEINFO
const RTA_DST = realsyscall.RTA_DST
const RTA_FLOW = realsyscall.RTA_FLOW
const RTA_GATEWAY = realsyscall.RTA_GATEWAY
const RTA_IIF = realsyscall.RTA_IIF
const RTA_MAX = realsyscall.RTA_MAX
const RTA_METRICS = realsyscall.RTA_METRICS
const RTA_MULTIPATH = realsyscall.RTA_MULTIPATH
const RTA_OIF = realsyscall.RTA_OIF
const RTA_PREFSRC = realsyscall.RTA_PREFSRC
const RTA_PRIORITY = realsyscall.RTA_PRIORITY
const RTA_SRC = realsyscall.RTA_SRC
const RTA_TABLE = realsyscall.RTA_TABLE
const RTA_UNSPEC = realsyscall.RTA_UNSPEC
const RTCF_DIRECTSRC = realsyscall.RTCF_DIRECTSRC
const RTCF_DOREDIRECT = realsyscall.RTCF_DOREDIRECT
const RTCF_LOG = realsyscall.RTCF_LOG
const RTCF_MASQ = realsyscall.RTCF_MASQ
const RTCF_NAT = realsyscall.RTCF_NAT
const RTCF_VALVE = realsyscall.RTCF_VALVE
const RTF_ADDRCLASSMASK = realsyscall.RTF_ADDRCLASSMASK
const RTF_ADDRCONF = realsyscall.RTF_ADDRCONF
const RTF_ALLONLINK = realsyscall.RTF_ALLONLINK
const RTF_BROADCAST = realsyscall.RTF_BROADCAST
const RTF_CACHE = realsyscall.RTF_CACHE
const RTF_DEFAULT = realsyscall.RTF_DEFAULT
const RTF_DYNAMIC = realsyscall.RTF_DYNAMIC
const RTF_FLOW = realsyscall.RTF_FLOW
const RTF_GATEWAY = realsyscall.RTF_GATEWAY
const RTF_HOST = realsyscall.RTF_HOST
const RTF_INTERFACE = realsyscall.RTF_INTERFACE
const RTF_IRTT = realsyscall.RTF_IRTT
const RTF_LINKRT = realsyscall.RTF_LINKRT
const RTF_LOCAL = realsyscall.RTF_LOCAL
const RTF_MODIFIED = realsyscall.RTF_MODIFIED
const RTF_MSS = realsyscall.RTF_MSS
const RTF_MTU = realsyscall.RTF_MTU
const RTF_MULTICAST = realsyscall.RTF_MULTICAST
const RTF_NAT = realsyscall.RTF_NAT
const RTF_NOFORWARD = realsyscall.RTF_NOFORWARD
const RTF_NONEXTHOP = realsyscall.RTF_NONEXTHOP
const RTF_NOPMTUDISC = realsyscall.RTF_NOPMTUDISC
const RTF_POLICY = realsyscall.RTF_POLICY
const RTF_REINSTATE = realsyscall.RTF_REINSTATE
const RTF_REJECT = realsyscall.RTF_REJECT
const RTF_STATIC = realsyscall.RTF_STATIC
const RTF_THROW = realsyscall.RTF_THROW
const RTF_UP = realsyscall.RTF_UP
const RTF_WINDOW = realsyscall.RTF_WINDOW
const RTF_XRESOLVE = realsyscall.RTF_XRESOLVE
const RTM_BASE = realsyscall.RTM_BASE
const RTM_DELACTION = realsyscall.RTM_DELACTION
const RTM_DELADDR = realsyscall.RTM_DELADDR
const RTM_DELADDRLABEL = realsyscall.RTM_DELADDRLABEL
const RTM_DELLINK = realsyscall.RTM_DELLINK
const RTM_DELNEIGH = realsyscall.RTM_DELNEIGH
const RTM_DELQDISC = realsyscall.RTM_DELQDISC
const RTM_DELROUTE = realsyscall.RTM_DELROUTE
const RTM_DELRULE = realsyscall.RTM_DELRULE
const RTM_DELTCLASS = realsyscall.RTM_DELTCLASS
const RTM_DELTFILTER = realsyscall.RTM_DELTFILTER
const RTM_F_CLONED = realsyscall.RTM_F_CLONED
const RTM_F_EQUALIZE = realsyscall.RTM_F_EQUALIZE
const RTM_F_NOTIFY = realsyscall.RTM_F_NOTIFY
const RTM_F_PREFIX = realsyscall.RTM_F_PREFIX
const RTM_GETACTION = realsyscall.RTM_GETACTION
const RTM_GETADDR = realsyscall.RTM_GETADDR
const RTM_GETADDRLABEL = realsyscall.RTM_GETADDRLABEL
const RTM_GETANYCAST = realsyscall.RTM_GETANYCAST
const RTM_GETDCB = realsyscall.RTM_GETDCB
const RTM_GETLINK = realsyscall.RTM_GETLINK
const RTM_GETMULTICAST = realsyscall.RTM_GETMULTICAST
const RTM_GETNEIGH = realsyscall.RTM_GETNEIGH
const RTM_GETNEIGHTBL = realsyscall.RTM_GETNEIGHTBL
const RTM_GETQDISC = realsyscall.RTM_GETQDISC
const RTM_GETROUTE = realsyscall.RTM_GETROUTE
const RTM_GETRULE = realsyscall.RTM_GETRULE
const RTM_GETTCLASS = realsyscall.RTM_GETTCLASS
const RTM_GETTFILTER = realsyscall.RTM_GETTFILTER
const RTM_MAX = realsyscall.RTM_MAX
const RTM_NEWACTION = realsyscall.RTM_NEWACTION
const RTM_NEWADDR = realsyscall.RTM_NEWADDR
const RTM_NEWADDRLABEL = realsyscall.RTM_NEWADDRLABEL
const RTM_NEWLINK = realsyscall.RTM_NEWLINK
const RTM_NEWNDUSEROPT = realsyscall.RTM_NEWNDUSEROPT
const RTM_NEWNEIGH = realsyscall.RTM_NEWNEIGH
const RTM_NEWNEIGHTBL = realsyscall.RTM_NEWNEIGHTBL
const RTM_NEWPREFIX = realsyscall.RTM_NEWPREFIX
const RTM_NEWQDISC = realsyscall.RTM_NEWQDISC
const RTM_NEWROUTE = realsyscall.RTM_NEWROUTE
const RTM_NEWRULE = realsyscall.RTM_NEWRULE
const RTM_NEWTCLASS = realsyscall.RTM_NEWTCLASS
const RTM_NEWTFILTER = realsyscall.RTM_NEWTFILTER
const RTM_NR_FAMILIES = realsyscall.RTM_NR_FAMILIES
const RTM_NR_MSGTYPES = realsyscall.RTM_NR_MSGTYPES
const RTM_SETDCB = realsyscall.RTM_SETDCB
const RTM_SETLINK = realsyscall.RTM_SETLINK
const RTM_SETNEIGHTBL = realsyscall.RTM_SETNEIGHTBL
const RTNH_ALIGNTO = realsyscall.RTNH_ALIGNTO
const RTNH_F_DEAD = realsyscall.RTNH_F_DEAD
const RTNH_F_ONLINK = realsyscall.RTNH_F_ONLINK
const RTNH_F_PERVASIVE = realsyscall.RTNH_F_PERVASIVE
const RTNLGRP_IPV4_IFADDR = realsyscall.RTNLGRP_IPV4_IFADDR
const RTNLGRP_IPV4_MROUTE = realsyscall.RTNLGRP_IPV4_MROUTE
const RTNLGRP_IPV4_ROUTE = realsyscall.RTNLGRP_IPV4_ROUTE
const RTNLGRP_IPV4_RULE = realsyscall.RTNLGRP_IPV4_RULE
const RTNLGRP_IPV6_IFADDR = realsyscall.RTNLGRP_IPV6_IFADDR
const RTNLGRP_IPV6_IFINFO = realsyscall.RTNLGRP_IPV6_IFINFO
const RTNLGRP_IPV6_MROUTE = realsyscall.RTNLGRP_IPV6_MROUTE
const RTNLGRP_IPV6_PREFIX = realsyscall.RTNLGRP_IPV6_PREFIX
const RTNLGRP_IPV6_ROUTE = realsyscall.RTNLGRP_IPV6_ROUTE
const RTNLGRP_IPV6_RULE = realsyscall.RTNLGRP_IPV6_RULE
const RTNLGRP_LINK = realsyscall.RTNLGRP_LINK
const RTNLGRP_ND_USEROPT = realsyscall.RTNLGRP_ND_USEROPT
const RTNLGRP_NEIGH = realsyscall.RTNLGRP_NEIGH
const RTNLGRP_NONE = realsyscall.RTNLGRP_NONE
const RTNLGRP_NOTIFY = realsyscall.RTNLGRP_NOTIFY
const RTNLGRP_TC = realsyscall.RTNLGRP_TC
const RTN_ANYCAST = realsyscall.RTN_ANYCAST
const RTN_BLACKHOLE = realsyscall.RTN_BLACKHOLE
const RTN_BROADCAST = realsyscall.RTN_BROADCAST
const RTN_LOCAL = realsyscall.RTN_LOCAL
const RTN_MAX = realsyscall.RTN_MAX
const RTN_MULTICAST = realsyscall.RTN_MULTICAST
const RTN_NAT = realsyscall.RTN_NAT
const RTN_PROHIBIT = realsyscall.RTN_PROHIBIT
const RTN_THROW = realsyscall.RTN_THROW
const RTN_UNICAST = realsyscall.RTN_UNICAST
const RTN_UNREACHABLE = realsyscall.RTN_UNREACHABLE
const RTN_UNSPEC = realsyscall.RTN_UNSPEC
const RTN_XRESOLVE = realsyscall.RTN_XRESOLVE
const RTPROT_BIRD = realsyscall.RTPROT_BIRD
const RTPROT_BOOT = realsyscall.RTPROT_BOOT
const RTPROT_DHCP = realsyscall.RTPROT_DHCP
const RTPROT_DNROUTED = realsyscall.RTPROT_DNROUTED
const RTPROT_GATED = realsyscall.RTPROT_GATED
const RTPROT_KERNEL = realsyscall.RTPROT_KERNEL
const RTPROT_MRT = realsyscall.RTPROT_MRT
const RTPROT_NTK = realsyscall.RTPROT_NTK
const RTPROT_RA = realsyscall.RTPROT_RA
const RTPROT_REDIRECT = realsyscall.RTPROT_REDIRECT
const RTPROT_STATIC = realsyscall.RTPROT_STATIC
const RTPROT_UNSPEC = realsyscall.RTPROT_UNSPEC
const RTPROT_XORP = realsyscall.RTPROT_XORP
const RTPROT_ZEBRA = realsyscall.RTPROT_ZEBRA
const RT_CLASS_DEFAULT = realsyscall.RT_CLASS_DEFAULT
const RT_CLASS_LOCAL = realsyscall.RT_CLASS_LOCAL
const RT_CLASS_MAIN = realsyscall.RT_CLASS_MAIN
const RT_CLASS_MAX = realsyscall.RT_CLASS_MAX
const RT_CLASS_UNSPEC = realsyscall.RT_CLASS_UNSPEC
const RT_SCOPE_HOST = realsyscall.RT_SCOPE_HOST
const RT_SCOPE_LINK = realsyscall.RT_SCOPE_LINK
const RT_SCOPE_NOWHERE = realsyscall.RT_SCOPE_NOWHERE
const RT_SCOPE_SITE = realsyscall.RT_SCOPE_SITE
const RT_SCOPE_UNIVERSE = realsyscall.RT_SCOPE_UNIVERSE
const RT_TABLE_COMPAT = realsyscall.RT_TABLE_COMPAT
const RT_TABLE_DEFAULT = realsyscall.RT_TABLE_DEFAULT
const RT_TABLE_LOCAL = realsyscall.RT_TABLE_LOCAL
const RT_TABLE_MAIN = realsyscall.RT_TABLE_MAIN
const RT_TABLE_MAX = realsyscall.RT_TABLE_MAX
const RT_TABLE_UNSPEC = realsyscall.RT_TABLE_UNSPEC
const RUSAGE_CHILDREN = realsyscall.RUSAGE_CHILDREN
const RUSAGE_SELF = realsyscall.RUSAGE_SELF
const RUSAGE_THREAD = realsyscall.RUSAGE_THREAD

type RawConn = realsyscall.RawConn
type RawSockaddr = realsyscall.RawSockaddr
type RawSockaddrAny = realsyscall.RawSockaddrAny
type RawSockaddrInet4 = realsyscall.RawSockaddrInet4
type RawSockaddrInet6 = realsyscall.RawSockaddrInet6
type RawSockaddrLinklayer = realsyscall.RawSockaddrLinklayer
type RawSockaddrNetlink = realsyscall.RawSockaddrNetlink
type RawSockaddrUnix = realsyscall.RawSockaddrUnix

var RawSyscall = realsyscall.RawSyscall
var RawSyscall6 = realsyscall.RawSyscall6
var Read = realsyscall.Read
var ReadDirent = realsyscall.ReadDirent
var Readlink = realsyscall.Readlink
var Recvfrom = realsyscall.Recvfrom
var Recvmsg = realsyscall.Recvmsg
var Removexattr = realsyscall.Removexattr
var Renameat = realsyscall.Renameat

type Rlimit = realsyscall.Rlimit
type RtAttr = realsyscall.RtAttr
type RtGenmsg = realsyscall.RtGenmsg
type RtMsg = realsyscall.RtMsg
type RtNexthop = realsyscall.RtNexthop
type Rusage = realsyscall.Rusage

const SCM_CREDENTIALS = realsyscall.SCM_CREDENTIALS
const SCM_RIGHTS = realsyscall.SCM_RIGHTS
const SCM_TIMESTAMP = realsyscall.SCM_TIMESTAMP
const SCM_TIMESTAMPING = realsyscall.SCM_TIMESTAMPING
const SCM_TIMESTAMPNS = realsyscall.SCM_TIMESTAMPNS
const SHUT_RD = realsyscall.SHUT_RD
const SHUT_RDWR = realsyscall.SHUT_RDWR
const SHUT_WR = realsyscall.SHUT_WR
const SIGABRT = realsyscall.SIGABRT
const SIGALRM = realsyscall.SIGALRM
const SIGBUS = realsyscall.SIGBUS
const SIGCHLD = realsyscall.SIGCHLD
const SIGCLD = realsyscall.SIGCLD
const SIGCONT = realsyscall.SIGCONT
const SIGFPE = realsyscall.SIGFPE
const SIGHUP = realsyscall.SIGHUP
const SIGILL = realsyscall.SIGILL
const SIGINT = realsyscall.SIGINT
const SIGIO = realsyscall.SIGIO
const SIGIOT = realsyscall.SIGIOT
const SIGKILL = realsyscall.SIGKILL
const SIGPIPE = realsyscall.SIGPIPE
const SIGPOLL = realsyscall.SIGPOLL
const SIGPROF = realsyscall.SIGPROF
const SIGPWR = realsyscall.SIGPWR
const SIGQUIT = realsyscall.SIGQUIT
const SIGSEGV = realsyscall.SIGSEGV
const SIGSTKFLT = realsyscall.SIGSTKFLT
const SIGSTOP = realsyscall.SIGSTOP
const SIGSYS = realsyscall.SIGSYS
const SIGTERM = realsyscall.SIGTERM
const SIGTRAP = realsyscall.SIGTRAP
const SIGTSTP = realsyscall.SIGTSTP
const SIGTTIN = realsyscall.SIGTTIN
const SIGTTOU = realsyscall.SIGTTOU
const SIGUNUSED = realsyscall.SIGUNUSED
const SIGURG = realsyscall.SIGURG
const SIGUSR1 = realsyscall.SIGUSR1
const SIGUSR2 = realsyscall.SIGUSR2
const SIGVTALRM = realsyscall.SIGVTALRM
const SIGWINCH = realsyscall.SIGWINCH
const SIGXCPU = realsyscall.SIGXCPU
const SIGXFSZ = realsyscall.SIGXFSZ
const SIOCADDDLCI = realsyscall.SIOCADDDLCI
const SIOCADDMULTI = realsyscall.SIOCADDMULTI
const SIOCADDRT = realsyscall.SIOCADDRT
const SIOCATMARK = realsyscall.SIOCATMARK
const SIOCDARP = realsyscall.SIOCDARP
const SIOCDELDLCI = realsyscall.SIOCDELDLCI
const SIOCDELMULTI = realsyscall.SIOCDELMULTI
const SIOCDELRT = realsyscall.SIOCDELRT
const SIOCDEVPRIVATE = realsyscall.SIOCDEVPRIVATE
const SIOCDIFADDR = realsyscall.SIOCDIFADDR
const SIOCDRARP = realsyscall.SIOCDRARP
const SIOCGARP = realsyscall.SIOCGARP
const SIOCGIFADDR = realsyscall.SIOCGIFADDR
const SIOCGIFBR = realsyscall.SIOCGIFBR
const SIOCGIFBRDADDR = realsyscall.SIOCGIFBRDADDR
const SIOCGIFCONF = realsyscall.SIOCGIFCONF
const SIOCGIFCOUNT = realsyscall.SIOCGIFCOUNT
const SIOCGIFDSTADDR = realsyscall.SIOCGIFDSTADDR
const SIOCGIFENCAP = realsyscall.SIOCGIFENCAP
const SIOCGIFFLAGS = realsyscall.SIOCGIFFLAGS
const SIOCGIFHWADDR = realsyscall.SIOCGIFHWADDR
const SIOCGIFINDEX = realsyscall.SIOCGIFINDEX
const SIOCGIFMAP = realsyscall.SIOCGIFMAP
const SIOCGIFMEM = realsyscall.SIOCGIFMEM
const SIOCGIFMETRIC = realsyscall.SIOCGIFMETRIC
const SIOCGIFMTU = realsyscall.SIOCGIFMTU
const SIOCGIFNAME = realsyscall.SIOCGIFNAME
const SIOCGIFNETMASK = realsyscall.SIOCGIFNETMASK
const SIOCGIFPFLAGS = realsyscall.SIOCGIFPFLAGS
const SIOCGIFSLAVE = realsyscall.SIOCGIFSLAVE
const SIOCGIFTXQLEN = realsyscall.SIOCGIFTXQLEN
const SIOCGPGRP = realsyscall.SIOCGPGRP
const SIOCGRARP = realsyscall.SIOCGRARP
const SIOCGSTAMP = realsyscall.SIOCGSTAMP
const SIOCGSTAMPNS = realsyscall.SIOCGSTAMPNS
const SIOCPROTOPRIVATE = realsyscall.SIOCPROTOPRIVATE
const SIOCRTMSG = realsyscall.SIOCRTMSG
const SIOCSARP = realsyscall.SIOCSARP
const SIOCSIFADDR = realsyscall.SIOCSIFADDR
const SIOCSIFBR = realsyscall.SIOCSIFBR
const SIOCSIFBRDADDR = realsyscall.SIOCSIFBRDADDR
const SIOCSIFDSTADDR = realsyscall.SIOCSIFDSTADDR
const SIOCSIFENCAP = realsyscall.SIOCSIFENCAP
const SIOCSIFFLAGS = realsyscall.SIOCSIFFLAGS
const SIOCSIFHWADDR = realsyscall.SIOCSIFHWADDR
const SIOCSIFHWBROADCAST = realsyscall.SIOCSIFHWBROADCAST
const SIOCSIFLINK = realsyscall.SIOCSIFLINK
const SIOCSIFMAP = realsyscall.SIOCSIFMAP
const SIOCSIFMEM = realsyscall.SIOCSIFMEM
const SIOCSIFMETRIC = realsyscall.SIOCSIFMETRIC
const SIOCSIFMTU = realsyscall.SIOCSIFMTU
const SIOCSIFNAME = realsyscall.SIOCSIFNAME
const SIOCSIFNETMASK = realsyscall.SIOCSIFNETMASK
const SIOCSIFPFLAGS = realsyscall.SIOCSIFPFLAGS
const SIOCSIFSLAVE = realsyscall.SIOCSIFSLAVE
const SIOCSIFTXQLEN = realsyscall.SIOCSIFTXQLEN
const SIOCSPGRP = realsyscall.SIOCSPGRP
const SIOCSRARP = realsyscall.SIOCSRARP
const SOCK_CLOEXEC = realsyscall.SOCK_CLOEXEC
const SOCK_DCCP = realsyscall.SOCK_DCCP
const SOCK_DGRAM = realsyscall.SOCK_DGRAM
const SOCK_NONBLOCK = realsyscall.SOCK_NONBLOCK
const SOCK_PACKET = realsyscall.SOCK_PACKET
const SOCK_RAW = realsyscall.SOCK_RAW
const SOCK_RDM = realsyscall.SOCK_RDM
const SOCK_SEQPACKET = realsyscall.SOCK_SEQPACKET
const SOCK_STREAM = realsyscall.SOCK_STREAM
const SOL_AAL = realsyscall.SOL_AAL
const SOL_ATM = realsyscall.SOL_ATM
const SOL_DECNET = realsyscall.SOL_DECNET
const SOL_ICMPV6 = realsyscall.SOL_ICMPV6
const SOL_IP = realsyscall.SOL_IP
const SOL_IPV6 = realsyscall.SOL_IPV6
const SOL_IRDA = realsyscall.SOL_IRDA
const SOL_PACKET = realsyscall.SOL_PACKET
const SOL_RAW = realsyscall.SOL_RAW
const SOL_SOCKET = realsyscall.SOL_SOCKET
const SOL_TCP = realsyscall.SOL_TCP
const SOL_X25 = realsyscall.SOL_X25
const SOMAXCONN = realsyscall.SOMAXCONN
const SO_ACCEPTCONN = realsyscall.SO_ACCEPTCONN
const SO_ATTACH_FILTER = realsyscall.SO_ATTACH_FILTER
const SO_BINDTODEVICE = realsyscall.SO_BINDTODEVICE
const SO_BROADCAST = realsyscall.SO_BROADCAST
const SO_BSDCOMPAT = realsyscall.SO_BSDCOMPAT
const SO_DEBUG = realsyscall.SO_DEBUG
const SO_DETACH_FILTER = realsyscall.SO_DETACH_FILTER
const SO_DOMAIN = realsyscall.SO_DOMAIN
const SO_DONTROUTE = realsyscall.SO_DONTROUTE
const SO_ERROR = realsyscall.SO_ERROR
const SO_KEEPALIVE = realsyscall.SO_KEEPALIVE
const SO_LINGER = realsyscall.SO_LINGER
const SO_MARK = realsyscall.SO_MARK
const SO_NO_CHECK = realsyscall.SO_NO_CHECK
const SO_OOBINLINE = realsyscall.SO_OOBINLINE
const SO_PASSCRED = realsyscall.SO_PASSCRED
const SO_PASSSEC = realsyscall.SO_PASSSEC
const SO_PEERCRED = realsyscall.SO_PEERCRED
const SO_PEERNAME = realsyscall.SO_PEERNAME
const SO_PEERSEC = realsyscall.SO_PEERSEC
const SO_PRIORITY = realsyscall.SO_PRIORITY
const SO_PROTOCOL = realsyscall.SO_PROTOCOL
const SO_RCVBUF = realsyscall.SO_RCVBUF
const SO_RCVBUFFORCE = realsyscall.SO_RCVBUFFORCE
const SO_RCVLOWAT = realsyscall.SO_RCVLOWAT
const SO_RCVTIMEO = realsyscall.SO_RCVTIMEO
const SO_REUSEADDR = realsyscall.SO_REUSEADDR
const SO_RXQ_OVFL = realsyscall.SO_RXQ_OVFL
const SO_SECURITY_AUTHENTICATION = realsyscall.SO_SECURITY_AUTHENTICATION
const SO_SECURITY_ENCRYPTION_NETWORK = realsyscall.SO_SECURITY_ENCRYPTION_NETWORK
const SO_SECURITY_ENCRYPTION_TRANSPORT = realsyscall.SO_SECURITY_ENCRYPTION_TRANSPORT
const SO_SNDBUF = realsyscall.SO_SNDBUF
const SO_SNDBUFFORCE = realsyscall.SO_SNDBUFFORCE
const SO_SNDLOWAT = realsyscall.SO_SNDLOWAT
const SO_SNDTIMEO = realsyscall.SO_SNDTIMEO
const SO_TIMESTAMP = realsyscall.SO_TIMESTAMP
const SO_TIMESTAMPING = realsyscall.SO_TIMESTAMPING
const SO_TIMESTAMPNS = realsyscall.SO_TIMESTAMPNS
const SO_TYPE = realsyscall.SO_TYPE
const SYS_ACCEPT = realsyscall.SYS_ACCEPT
const SYS_ACCEPT4 = realsyscall.SYS_ACCEPT4
const SYS_ACCESS = realsyscall.SYS_ACCESS
const SYS_ACCT = realsyscall.SYS_ACCT
const SYS_ADD_KEY = realsyscall.SYS_ADD_KEY
const SYS_ADJTIMEX = realsyscall.SYS_ADJTIMEX
const SYS_AFS_SYSCALL = realsyscall.SYS_AFS_SYSCALL
const SYS_ALARM = realsyscall.SYS_ALARM
const SYS_ARCH_PRCTL = realsyscall.SYS_ARCH_PRCTL
const SYS_BIND = realsyscall.SYS_BIND
const SYS_BRK = realsyscall.SYS_BRK
const SYS_CAPGET = realsyscall.SYS_CAPGET
const SYS_CAPSET = realsyscall.SYS_CAPSET
const SYS_CHDIR = realsyscall.SYS_CHDIR
const SYS_CHMOD = realsyscall.SYS_CHMOD
const SYS_CHOWN = realsyscall.SYS_CHOWN
const SYS_CHROOT = realsyscall.SYS_CHROOT
const SYS_CLOCK_GETRES = realsyscall.SYS_CLOCK_GETRES
const SYS_CLOCK_GETTIME = realsyscall.SYS_CLOCK_GETTIME
const SYS_CLOCK_NANOSLEEP = realsyscall.SYS_CLOCK_NANOSLEEP
const SYS_CLOCK_SETTIME = realsyscall.SYS_CLOCK_SETTIME
const SYS_CLONE = realsyscall.SYS_CLONE
const SYS_CLOSE = realsyscall.SYS_CLOSE
const SYS_CONNECT = realsyscall.SYS_CONNECT
const SYS_CREAT = realsyscall.SYS_CREAT
const SYS_CREATE_MODULE = realsyscall.SYS_CREATE_MODULE
const SYS_DELETE_MODULE = realsyscall.SYS_DELETE_MODULE
const SYS_DUP = realsyscall.SYS_DUP
const SYS_DUP2 = realsyscall.SYS_DUP2
const SYS_DUP3 = realsyscall.SYS_DUP3
const SYS_EPOLL_CREATE = realsyscall.SYS_EPOLL_CREATE
const SYS_EPOLL_CREATE1 = realsyscall.SYS_EPOLL_CREATE1
const SYS_EPOLL_CTL = realsyscall.SYS_EPOLL_CTL
const SYS_EPOLL_CTL_OLD = realsyscall.SYS_EPOLL_CTL_OLD
const SYS_EPOLL_PWAIT = realsyscall.SYS_EPOLL_PWAIT
const SYS_EPOLL_WAIT = realsyscall.SYS_EPOLL_WAIT
const SYS_EPOLL_WAIT_OLD = realsyscall.SYS_EPOLL_WAIT_OLD
const SYS_EVENTFD = realsyscall.SYS_EVENTFD
const SYS_EVENTFD2 = realsyscall.SYS_EVENTFD2
const SYS_EXECVE = realsyscall.SYS_EXECVE
const SYS_EXIT = realsyscall.SYS_EXIT
const SYS_EXIT_GROUP = realsyscall.SYS_EXIT_GROUP
const SYS_FACCESSAT = realsyscall.SYS_FACCESSAT
const SYS_FADVISE64 = realsyscall.SYS_FADVISE64
const SYS_FALLOCATE = realsyscall.SYS_FALLOCATE
const SYS_FANOTIFY_INIT = realsyscall.SYS_FANOTIFY_INIT
const SYS_FANOTIFY_MARK = realsyscall.SYS_FANOTIFY_MARK
const SYS_FCHDIR = realsyscall.SYS_FCHDIR
const SYS_FCHMOD = realsyscall.SYS_FCHMOD
const SYS_FCHMODAT = realsyscall.SYS_FCHMODAT
const SYS_FCHOWN = realsyscall.SYS_FCHOWN
const SYS_FCHOWNAT = realsyscall.SYS_FCHOWNAT
const SYS_FCNTL = realsyscall.SYS_FCNTL
const SYS_FDATASYNC = realsyscall.SYS_FDATASYNC
const SYS_FGETXATTR = realsyscall.SYS_FGETXATTR
const SYS_FLISTXATTR = realsyscall.SYS_FLISTXATTR
const SYS_FLOCK = realsyscall.SYS_FLOCK
const SYS_FORK = realsyscall.SYS_FORK
const SYS_FREMOVEXATTR = realsyscall.SYS_FREMOVEXATTR
const SYS_FSETXATTR = realsyscall.SYS_FSETXATTR
const SYS_FSTAT = realsyscall.SYS_FSTAT
const SYS_FSTATFS = realsyscall.SYS_FSTATFS
const SYS_FSYNC = realsyscall.SYS_FSYNC
const SYS_FTRUNCATE = realsyscall.SYS_FTRUNCATE
const SYS_FUTEX = realsyscall.SYS_FUTEX
const SYS_FUTIMESAT = realsyscall.SYS_FUTIMESAT
const SYS_GETCWD = realsyscall.SYS_GETCWD
const SYS_GETDENTS = realsyscall.SYS_GETDENTS
const SYS_GETDENTS64 = realsyscall.SYS_GETDENTS64
const SYS_GETEGID = realsyscall.SYS_GETEGID
const SYS_GETEUID = realsyscall.SYS_GETEUID
const SYS_GETGID = realsyscall.SYS_GETGID
const SYS_GETGROUPS = realsyscall.SYS_GETGROUPS
const SYS_GETITIMER = realsyscall.SYS_GETITIMER
const SYS_GETPEERNAME = realsyscall.SYS_GETPEERNAME
const SYS_GETPGID = realsyscall.SYS_GETPGID
const SYS_GETPGRP = realsyscall.SYS_GETPGRP
const SYS_GETPID = realsyscall.SYS_GETPID
const SYS_GETPMSG = realsyscall.SYS_GETPMSG
const SYS_GETPPID = realsyscall.SYS_GETPPID
const SYS_GETPRIORITY = realsyscall.SYS_GETPRIORITY
const SYS_GETRESGID = realsyscall.SYS_GETRESGID
const SYS_GETRESUID = realsyscall.SYS_GETRESUID
const SYS_GETRLIMIT = realsyscall.SYS_GETRLIMIT
const SYS_GETRUSAGE = realsyscall.SYS_GETRUSAGE
const SYS_GETSID = realsyscall.SYS_GETSID
const SYS_GETSOCKNAME = realsyscall.SYS_GETSOCKNAME
const SYS_GETSOCKOPT = realsyscall.SYS_GETSOCKOPT
const SYS_GETTID = realsyscall.SYS_GETTID
const SYS_GETTIMEOFDAY = realsyscall.SYS_GETTIMEOFDAY
const SYS_GETUID = realsyscall.SYS_GETUID
const SYS_GETXATTR = realsyscall.SYS_GETXATTR
const SYS_GET_KERNEL_SYMS = realsyscall.SYS_GET_KERNEL_SYMS
const SYS_GET_MEMPOLICY = realsyscall.SYS_GET_MEMPOLICY
const SYS_GET_ROBUST_LIST = realsyscall.SYS_GET_ROBUST_LIST
const SYS_GET_THREAD_AREA = realsyscall.SYS_GET_THREAD_AREA
const SYS_INIT_MODULE = realsyscall.SYS_INIT_MODULE
const SYS_INOTIFY_ADD_WATCH = realsyscall.SYS_INOTIFY_ADD_WATCH
const SYS_INOTIFY_INIT = realsyscall.SYS_INOTIFY_INIT
const SYS_INOTIFY_INIT1 = realsyscall.SYS_INOTIFY_INIT1
const SYS_INOTIFY_RM_WATCH = realsyscall.SYS_INOTIFY_RM_WATCH
const SYS_IOCTL = realsyscall.SYS_IOCTL
const SYS_IOPERM = realsyscall.SYS_IOPERM
const SYS_IOPL = realsyscall.SYS_IOPL
const SYS_IOPRIO_GET = realsyscall.SYS_IOPRIO_GET
const SYS_IOPRIO_SET = realsyscall.SYS_IOPRIO_SET
const SYS_IO_CANCEL = realsyscall.SYS_IO_CANCEL
const SYS_IO_DESTROY = realsyscall.SYS_IO_DESTROY
const SYS_IO_GETEVENTS = realsyscall.SYS_IO_GETEVENTS
const SYS_IO_SETUP = realsyscall.SYS_IO_SETUP
const SYS_IO_SUBMIT = realsyscall.SYS_IO_SUBMIT
const SYS_KEXEC_LOAD = realsyscall.SYS_KEXEC_LOAD
const SYS_KEYCTL = realsyscall.SYS_KEYCTL
const SYS_KILL = realsyscall.SYS_KILL
const SYS_LCHOWN = realsyscall.SYS_LCHOWN
const SYS_LGETXATTR = realsyscall.SYS_LGETXATTR
const SYS_LINK = realsyscall.SYS_LINK
const SYS_LINKAT = realsyscall.SYS_LINKAT
const SYS_LISTEN = realsyscall.SYS_LISTEN
const SYS_LISTXATTR = realsyscall.SYS_LISTXATTR
const SYS_LLISTXATTR = realsyscall.SYS_LLISTXATTR
const SYS_LOOKUP_DCOOKIE = realsyscall.SYS_LOOKUP_DCOOKIE
const SYS_LREMOVEXATTR = realsyscall.SYS_LREMOVEXATTR
const SYS_LSEEK = realsyscall.SYS_LSEEK
const SYS_LSETXATTR = realsyscall.SYS_LSETXATTR
const SYS_LSTAT = realsyscall.SYS_LSTAT
const SYS_MADVISE = realsyscall.SYS_MADVISE
const SYS_MBIND = realsyscall.SYS_MBIND
const SYS_MIGRATE_PAGES = realsyscall.SYS_MIGRATE_PAGES
const SYS_MINCORE = realsyscall.SYS_MINCORE
const SYS_MKDIR = realsyscall.SYS_MKDIR
const SYS_MKDIRAT = realsyscall.SYS_MKDIRAT
const SYS_MKNOD = realsyscall.SYS_MKNOD
const SYS_MKNODAT = realsyscall.SYS_MKNODAT
const SYS_MLOCK = realsyscall.SYS_MLOCK
const SYS_MLOCKALL = realsyscall.SYS_MLOCKALL
const SYS_MMAP = realsyscall.SYS_MMAP
const SYS_MODIFY_LDT = realsyscall.SYS_MODIFY_LDT
const SYS_MOUNT = realsyscall.SYS_MOUNT
const SYS_MOVE_PAGES = realsyscall.SYS_MOVE_PAGES
const SYS_MPROTECT = realsyscall.SYS_MPROTECT
const SYS_MQ_GETSETATTR = realsyscall.SYS_MQ_GETSETATTR
const SYS_MQ_NOTIFY = realsyscall.SYS_MQ_NOTIFY
const SYS_MQ_OPEN = realsyscall.SYS_MQ_OPEN
const SYS_MQ_TIMEDRECEIVE = realsyscall.SYS_MQ_TIMEDRECEIVE
const SYS_MQ_TIMEDSEND = realsyscall.SYS_MQ_TIMEDSEND
const SYS_MQ_UNLINK = realsyscall.SYS_MQ_UNLINK
const SYS_MREMAP = realsyscall.SYS_MREMAP
const SYS_MSGCTL = realsyscall.SYS_MSGCTL
const SYS_MSGGET = realsyscall.SYS_MSGGET
const SYS_MSGRCV = realsyscall.SYS_MSGRCV
const SYS_MSGSND = realsyscall.SYS_MSGSND
const SYS_MSYNC = realsyscall.SYS_MSYNC
const SYS_MUNLOCK = realsyscall.SYS_MUNLOCK
const SYS_MUNLOCKALL = realsyscall.SYS_MUNLOCKALL
const SYS_MUNMAP = realsyscall.SYS_MUNMAP
const SYS_NANOSLEEP = realsyscall.SYS_NANOSLEEP
const SYS_NEWFSTATAT = realsyscall.SYS_NEWFSTATAT
const SYS_NFSSERVCTL = realsyscall.SYS_NFSSERVCTL
const SYS_OPEN = realsyscall.SYS_OPEN
const SYS_OPENAT = realsyscall.SYS_OPENAT
const SYS_PAUSE = realsyscall.SYS_PAUSE
const SYS_PERF_EVENT_OPEN = realsyscall.SYS_PERF_EVENT_OPEN
const SYS_PERSONALITY = realsyscall.SYS_PERSONALITY
const SYS_PIPE = realsyscall.SYS_PIPE
const SYS_PIPE2 = realsyscall.SYS_PIPE2
const SYS_PIVOT_ROOT = realsyscall.SYS_PIVOT_ROOT
const SYS_POLL = realsyscall.SYS_POLL
const SYS_PPOLL = realsyscall.SYS_PPOLL
const SYS_PRCTL = realsyscall.SYS_PRCTL
const SYS_PREAD64 = realsyscall.SYS_PREAD64
const SYS_PREADV = realsyscall.SYS_PREADV
const SYS_PRLIMIT64 = realsyscall.SYS_PRLIMIT64
const SYS_PSELECT6 = realsyscall.SYS_PSELECT6
const SYS_PTRACE = realsyscall.SYS_PTRACE
const SYS_PUTPMSG = realsyscall.SYS_PUTPMSG
const SYS_PWRITE64 = realsyscall.SYS_PWRITE64
const SYS_PWRITEV = realsyscall.SYS_PWRITEV
const SYS_QUERY_MODULE = realsyscall.SYS_QUERY_MODULE
const SYS_QUOTACTL = realsyscall.SYS_QUOTACTL
const SYS_READ = realsyscall.SYS_READ
const SYS_READAHEAD = realsyscall.SYS_READAHEAD
const SYS_READLINK = realsyscall.SYS_READLINK
const SYS_READLINKAT = realsyscall.SYS_READLINKAT
const SYS_READV = realsyscall.SYS_READV
const SYS_REBOOT = realsyscall.SYS_REBOOT
const SYS_RECVFROM = realsyscall.SYS_RECVFROM
const SYS_RECVMMSG = realsyscall.SYS_RECVMMSG
const SYS_RECVMSG = realsyscall.SYS_RECVMSG
const SYS_REMAP_FILE_PAGES = realsyscall.SYS_REMAP_FILE_PAGES
const SYS_REMOVEXATTR = realsyscall.SYS_REMOVEXATTR
const SYS_RENAME = realsyscall.SYS_RENAME
const SYS_RENAMEAT = realsyscall.SYS_RENAMEAT
const SYS_REQUEST_KEY = realsyscall.SYS_REQUEST_KEY
const SYS_RESTART_SYSCALL = realsyscall.SYS_RESTART_SYSCALL
const SYS_RMDIR = realsyscall.SYS_RMDIR
const SYS_RT_SIGACTION = realsyscall.SYS_RT_SIGACTION
const SYS_RT_SIGPENDING = realsyscall.SYS_RT_SIGPENDING
const SYS_RT_SIGPROCMASK = realsyscall.SYS_RT_SIGPROCMASK
const SYS_RT_SIGQUEUEINFO = realsyscall.SYS_RT_SIGQUEUEINFO
const SYS_RT_SIGRETURN = realsyscall.SYS_RT_SIGRETURN
const SYS_RT_SIGSUSPEND = realsyscall.SYS_RT_SIGSUSPEND
const SYS_RT_SIGTIMEDWAIT = realsyscall.SYS_RT_SIGTIMEDWAIT
const SYS_RT_TGSIGQUEUEINFO = realsyscall.SYS_RT_TGSIGQUEUEINFO
const SYS_SCHED_GETAFFINITY = realsyscall.SYS_SCHED_GETAFFINITY
const SYS_SCHED_GETPARAM = realsyscall.SYS_SCHED_GETPARAM
const SYS_SCHED_GETSCHEDULER = realsyscall.SYS_SCHED_GETSCHEDULER
const SYS_SCHED_GET_PRIORITY_MAX = realsyscall.SYS_SCHED_GET_PRIORITY_MAX
const SYS_SCHED_GET_PRIORITY_MIN = realsyscall.SYS_SCHED_GET_PRIORITY_MIN
const SYS_SCHED_RR_GET_INTERVAL = realsyscall.SYS_SCHED_RR_GET_INTERVAL
const SYS_SCHED_SETAFFINITY = realsyscall.SYS_SCHED_SETAFFINITY
const SYS_SCHED_SETPARAM = realsyscall.SYS_SCHED_SETPARAM
const SYS_SCHED_SETSCHEDULER = realsyscall.SYS_SCHED_SETSCHEDULER
const SYS_SCHED_YIELD = realsyscall.SYS_SCHED_YIELD
const SYS_SECURITY = realsyscall.SYS_SECURITY
const SYS_SELECT = realsyscall.SYS_SELECT
const SYS_SEMCTL = realsyscall.SYS_SEMCTL
const SYS_SEMGET = realsyscall.SYS_SEMGET
const SYS_SEMOP = realsyscall.SYS_SEMOP
const SYS_SEMTIMEDOP = realsyscall.SYS_SEMTIMEDOP
const SYS_SENDFILE = realsyscall.SYS_SENDFILE
const SYS_SENDMSG = realsyscall.SYS_SENDMSG
const SYS_SENDTO = realsyscall.SYS_SENDTO
const SYS_SETDOMAINNAME = realsyscall.SYS_SETDOMAINNAME
const SYS_SETFSGID = realsyscall.SYS_SETFSGID
const SYS_SETFSUID = realsyscall.SYS_SETFSUID
const SYS_SETGID = realsyscall.SYS_SETGID
const SYS_SETGROUPS = realsyscall.SYS_SETGROUPS
const SYS_SETHOSTNAME = realsyscall.SYS_SETHOSTNAME
const SYS_SETITIMER = realsyscall.SYS_SETITIMER
const SYS_SETPGID = realsyscall.SYS_SETPGID
const SYS_SETPRIORITY = realsyscall.SYS_SETPRIORITY
const SYS_SETREGID = realsyscall.SYS_SETREGID
const SYS_SETRESGID = realsyscall.SYS_SETRESGID
const SYS_SETRESUID = realsyscall.SYS_SETRESUID
const SYS_SETREUID = realsyscall.SYS_SETREUID
const SYS_SETRLIMIT = realsyscall.SYS_SETRLIMIT
const SYS_SETSID = realsyscall.SYS_SETSID
const SYS_SETSOCKOPT = realsyscall.SYS_SETSOCKOPT
const SYS_SETTIMEOFDAY = realsyscall.SYS_SETTIMEOFDAY
const SYS_SETUID = realsyscall.SYS_SETUID
const SYS_SETXATTR = realsyscall.SYS_SETXATTR
const SYS_SET_MEMPOLICY = realsyscall.SYS_SET_MEMPOLICY
const SYS_SET_ROBUST_LIST = realsyscall.SYS_SET_ROBUST_LIST
const SYS_SET_THREAD_AREA = realsyscall.SYS_SET_THREAD_AREA
const SYS_SET_TID_ADDRESS = realsyscall.SYS_SET_TID_ADDRESS
const SYS_SHMAT = realsyscall.SYS_SHMAT
const SYS_SHMCTL = realsyscall.SYS_SHMCTL
const SYS_SHMDT = realsyscall.SYS_SHMDT
const SYS_SHMGET = realsyscall.SYS_SHMGET
const SYS_SHUTDOWN = realsyscall.SYS_SHUTDOWN
const SYS_SIGALTSTACK = realsyscall.SYS_SIGALTSTACK
const SYS_SIGNALFD = realsyscall.SYS_SIGNALFD
const SYS_SIGNALFD4 = realsyscall.SYS_SIGNALFD4
const SYS_SOCKET = realsyscall.SYS_SOCKET
const SYS_SOCKETPAIR = realsyscall.SYS_SOCKETPAIR
const SYS_SPLICE = realsyscall.SYS_SPLICE
const SYS_STAT = realsyscall.SYS_STAT
const SYS_STATFS = realsyscall.SYS_STATFS
const SYS_SWAPOFF = realsyscall.SYS_SWAPOFF
const SYS_SWAPON = realsyscall.SYS_SWAPON
const SYS_SYMLINK = realsyscall.SYS_SYMLINK
const SYS_SYMLINKAT = realsyscall.SYS_SYMLINKAT
const SYS_SYNC = realsyscall.SYS_SYNC
const SYS_SYNC_FILE_RANGE = realsyscall.SYS_SYNC_FILE_RANGE
const SYS_SYSFS = realsyscall.SYS_SYSFS
const SYS_SYSINFO = realsyscall.SYS_SYSINFO
const SYS_SYSLOG = realsyscall.SYS_SYSLOG
const SYS_TEE = realsyscall.SYS_TEE
const SYS_TGKILL = realsyscall.SYS_TGKILL
const SYS_TIME = realsyscall.SYS_TIME
const SYS_TIMERFD_CREATE = realsyscall.SYS_TIMERFD_CREATE
const SYS_TIMERFD_GETTIME = realsyscall.SYS_TIMERFD_GETTIME
const SYS_TIMERFD_SETTIME = realsyscall.SYS_TIMERFD_SETTIME
const SYS_TIMER_CREATE = realsyscall.SYS_TIMER_CREATE
const SYS_TIMER_DELETE = realsyscall.SYS_TIMER_DELETE
const SYS_TIMER_GETOVERRUN = realsyscall.SYS_TIMER_GETOVERRUN
const SYS_TIMER_GETTIME = realsyscall.SYS_TIMER_GETTIME
const SYS_TIMER_SETTIME = realsyscall.SYS_TIMER_SETTIME
const SYS_TIMES = realsyscall.SYS_TIMES
const SYS_TKILL = realsyscall.SYS_TKILL
const SYS_TRUNCATE = realsyscall.SYS_TRUNCATE
const SYS_TUXCALL = realsyscall.SYS_TUXCALL
const SYS_UMASK = realsyscall.SYS_UMASK
const SYS_UMOUNT2 = realsyscall.SYS_UMOUNT2
const SYS_UNAME = realsyscall.SYS_UNAME
const SYS_UNLINK = realsyscall.SYS_UNLINK
const SYS_UNLINKAT = realsyscall.SYS_UNLINKAT
const SYS_UNSHARE = realsyscall.SYS_UNSHARE
const SYS_USELIB = realsyscall.SYS_USELIB
const SYS_USTAT = realsyscall.SYS_USTAT
const SYS_UTIME = realsyscall.SYS_UTIME
const SYS_UTIMENSAT = realsyscall.SYS_UTIMENSAT
const SYS_UTIMES = realsyscall.SYS_UTIMES
const SYS_VFORK = realsyscall.SYS_VFORK
const SYS_VHANGUP = realsyscall.SYS_VHANGUP
const SYS_VMSPLICE = realsyscall.SYS_VMSPLICE
const SYS_VSERVER = realsyscall.SYS_VSERVER
const SYS_WAIT4 = realsyscall.SYS_WAIT4
const SYS_WAITID = realsyscall.SYS_WAITID
const SYS_WRITE = realsyscall.SYS_WRITE
const SYS_WRITEV = realsyscall.SYS_WRITEV
const SYS__SYSCTL = realsyscall.SYS__SYSCTL
const S_BLKSIZE = realsyscall.S_BLKSIZE
const S_IEXEC = realsyscall.S_IEXEC
const S_IFBLK = realsyscall.S_IFBLK
const S_IFCHR = realsyscall.S_IFCHR
const S_IFDIR = realsyscall.S_IFDIR
const S_IFIFO = realsyscall.S_IFIFO
const S_IFLNK = realsyscall.S_IFLNK
const S_IFMT = realsyscall.S_IFMT
const S_IFREG = realsyscall.S_IFREG
const S_IFSOCK = realsyscall.S_IFSOCK
const S_IREAD = realsyscall.S_IREAD
const S_IRGRP = realsyscall.S_IRGRP
const S_IROTH = realsyscall.S_IROTH
const S_IRUSR = realsyscall.S_IRUSR
const S_IRWXG = realsyscall.S_IRWXG
const S_IRWXO = realsyscall.S_IRWXO
const S_IRWXU = realsyscall.S_IRWXU
const S_ISGID = realsyscall.S_ISGID
const S_ISUID = realsyscall.S_ISUID
const S_ISVTX = realsyscall.S_ISVTX
const S_IWGRP = realsyscall.S_IWGRP
const S_IWOTH = realsyscall.S_IWOTH
const S_IWRITE = realsyscall.S_IWRITE
const S_IWUSR = realsyscall.S_IWUSR
const S_IXGRP = realsyscall.S_IXGRP
const S_IXOTH = realsyscall.S_IXOTH
const S_IXUSR = realsyscall.S_IXUSR

var Seek = realsyscall.Seek
var Select = realsyscall.Select
var Sendfile = realsyscall.Sendfile
var Sendmsg = realsyscall.Sendmsg
var SendmsgN = realsyscall.SendmsgN
var Sendto = realsyscall.Sendto
var SetLsfPromisc = realsyscall.SetLsfPromisc
var SetNonblock = realsyscall.SetNonblock
var Setdomainname = realsyscall.Setdomainname
var Setegid = realsyscall.Setegid
var Setenv = realsyscall.Setenv
var Seteuid = realsyscall.Seteuid
var Setfsgid = realsyscall.Setfsgid
var Setfsuid = realsyscall.Setfsuid
var Setgid = realsyscall.Setgid
var Setgroups = realsyscall.Setgroups
var Sethostname = realsyscall.Sethostname
var Setpgid = realsyscall.Setpgid
var Setpriority = realsyscall.Setpriority
var Setregid = realsyscall.Setregid
var Setresgid = realsyscall.Setresgid
var Setresuid = realsyscall.Setresuid
var Setreuid = realsyscall.Setreuid
var Setrlimit = realsyscall.Setrlimit
var Setsid = realsyscall.Setsid
var SetsockoptByte = realsyscall.SetsockoptByte
var SetsockoptICMPv6Filter = realsyscall.SetsockoptICMPv6Filter
var SetsockoptIPMreq = realsyscall.SetsockoptIPMreq
var SetsockoptIPMreqn = realsyscall.SetsockoptIPMreqn
var SetsockoptIPv6Mreq = realsyscall.SetsockoptIPv6Mreq
var SetsockoptInet4Addr = realsyscall.SetsockoptInet4Addr
var SetsockoptLinger = realsyscall.SetsockoptLinger
var SetsockoptString = realsyscall.SetsockoptString
var SetsockoptTimeval = realsyscall.SetsockoptTimeval
var Settimeofday = realsyscall.Settimeofday
var Setuid = realsyscall.Setuid
var Setxattr = realsyscall.Setxattr
var Shutdown = realsyscall.Shutdown

type Signal = realsyscall.Signal

const SizeofCmsghdr = realsyscall.SizeofCmsghdr
const SizeofICMPv6Filter = realsyscall.SizeofICMPv6Filter
const SizeofIPMreq = realsyscall.SizeofIPMreq
const SizeofIPMreqn = realsyscall.SizeofIPMreqn
const SizeofIPv6MTUInfo = realsyscall.SizeofIPv6MTUInfo
const SizeofIPv6Mreq = realsyscall.SizeofIPv6Mreq
const SizeofIfAddrmsg = realsyscall.SizeofIfAddrmsg
const SizeofIfInfomsg = realsyscall.SizeofIfInfomsg
const SizeofInet4Pktinfo = realsyscall.SizeofInet4Pktinfo
const SizeofInet6Pktinfo = realsyscall.SizeofInet6Pktinfo
const SizeofInotifyEvent = realsyscall.SizeofInotifyEvent
const SizeofLinger = realsyscall.SizeofLinger
const SizeofMsghdr = realsyscall.SizeofMsghdr
const SizeofNlAttr = realsyscall.SizeofNlAttr
const SizeofNlMsgerr = realsyscall.SizeofNlMsgerr
const SizeofNlMsghdr = realsyscall.SizeofNlMsghdr
const SizeofRtAttr = realsyscall.SizeofRtAttr
const SizeofRtGenmsg = realsyscall.SizeofRtGenmsg
const SizeofRtMsg = realsyscall.SizeofRtMsg
const SizeofRtNexthop = realsyscall.SizeofRtNexthop
const SizeofSockFilter = realsyscall.SizeofSockFilter
const SizeofSockFprog = realsyscall.SizeofSockFprog
const SizeofSockaddrAny = realsyscall.SizeofSockaddrAny
const SizeofSockaddrInet4 = realsyscall.SizeofSockaddrInet4
const SizeofSockaddrInet6 = realsyscall.SizeofSockaddrInet6
const SizeofSockaddrLinklayer = realsyscall.SizeofSockaddrLinklayer
const SizeofSockaddrNetlink = realsyscall.SizeofSockaddrNetlink
const SizeofSockaddrUnix = realsyscall.SizeofSockaddrUnix
const SizeofTCPInfo = realsyscall.SizeofTCPInfo
const SizeofUcred = realsyscall.SizeofUcred

var SlicePtrFromStrings = realsyscall.SlicePtrFromStrings

type SockFilter = realsyscall.SockFilter
type SockFprog = realsyscall.SockFprog
type Sockaddr = realsyscall.Sockaddr
type SockaddrInet4 = realsyscall.SockaddrInet4
type SockaddrInet6 = realsyscall.SockaddrInet6
type SockaddrLinklayer = realsyscall.SockaddrLinklayer
type SockaddrNetlink = realsyscall.SockaddrNetlink
type SockaddrUnix = realsyscall.SockaddrUnix

var Socket = realsyscall.Socket

type SocketControlMessage = realsyscall.SocketControlMessage

var SocketDisableIPv6 = realsyscall.SocketDisableIPv6
var Socketpair = realsyscall.Socketpair
var Splice = realsyscall.Splice
var StartProcess = realsyscall.StartProcess
var Stat = realsyscall.Stat

type Stat_t = realsyscall.Stat_t
type Statfs_t = realsyscall.Statfs_t

var Stderr = realsyscall.Stderr
var Stdin = realsyscall.Stdin
var Stdout = realsyscall.Stdout
var StringBytePtr = realsyscall.StringBytePtr
var StringByteSlice = realsyscall.StringByteSlice
var StringSlicePtr = realsyscall.StringSlicePtr
var Symlink = realsyscall.Symlink
var Sync = realsyscall.Sync
var SyncFileRange = realsyscall.SyncFileRange

type SysProcAttr = realsyscall.SysProcAttr
type SysProcIDMap = realsyscall.SysProcIDMap

var Syscall = realsyscall.Syscall
var Syscall6 = realsyscall.Syscall6
var Sysinfo = realsyscall.Sysinfo

type Sysinfo_t = realsyscall.Sysinfo_t

const TCGETS = realsyscall.TCGETS
const TCIFLUSH = realsyscall.TCIFLUSH
const TCIOFLUSH = realsyscall.TCIOFLUSH
const TCOFLUSH = realsyscall.TCOFLUSH

type TCPInfo = realsyscall.TCPInfo

const TCP_CONGESTION = realsyscall.TCP_CONGESTION
const TCP_CORK = realsyscall.TCP_CORK
const TCP_DEFER_ACCEPT = realsyscall.TCP_DEFER_ACCEPT
const TCP_INFO = realsyscall.TCP_INFO
const TCP_KEEPCNT = realsyscall.TCP_KEEPCNT
const TCP_KEEPIDLE = realsyscall.TCP_KEEPIDLE
const TCP_KEEPINTVL = realsyscall.TCP_KEEPINTVL
const TCP_LINGER2 = realsyscall.TCP_LINGER2
const TCP_MAXSEG = realsyscall.TCP_MAXSEG
const TCP_MAXWIN = realsyscall.TCP_MAXWIN
const TCP_MAX_WINSHIFT = realsyscall.TCP_MAX_WINSHIFT
const TCP_MD5SIG = realsyscall.TCP_MD5SIG
const TCP_MD5SIG_MAXKEYLEN = realsyscall.TCP_MD5SIG_MAXKEYLEN
const TCP_MSS = realsyscall.TCP_MSS
const TCP_NODELAY = realsyscall.TCP_NODELAY
const TCP_QUICKACK = realsyscall.TCP_QUICKACK
const TCP_SYNCNT = realsyscall.TCP_SYNCNT
const TCP_WINDOW_CLAMP = realsyscall.TCP_WINDOW_CLAMP
const TCSETS = realsyscall.TCSETS
const TIOCCBRK = realsyscall.TIOCCBRK
const TIOCCONS = realsyscall.TIOCCONS
const TIOCEXCL = realsyscall.TIOCEXCL
const TIOCGDEV = realsyscall.TIOCGDEV
const TIOCGETD = realsyscall.TIOCGETD
const TIOCGICOUNT = realsyscall.TIOCGICOUNT
const TIOCGLCKTRMIOS = realsyscall.TIOCGLCKTRMIOS
const TIOCGPGRP = realsyscall.TIOCGPGRP
const TIOCGPTN = realsyscall.TIOCGPTN
const TIOCGRS485 = realsyscall.TIOCGRS485
const TIOCGSERIAL = realsyscall.TIOCGSERIAL
const TIOCGSID = realsyscall.TIOCGSID
const TIOCGSOFTCAR = realsyscall.TIOCGSOFTCAR
const TIOCGWINSZ = realsyscall.TIOCGWINSZ
const TIOCINQ = realsyscall.TIOCINQ
const TIOCLINUX = realsyscall.TIOCLINUX
const TIOCMBIC = realsyscall.TIOCMBIC
const TIOCMBIS = realsyscall.TIOCMBIS
const TIOCMGET = realsyscall.TIOCMGET
const TIOCMIWAIT = realsyscall.TIOCMIWAIT
const TIOCMSET = realsyscall.TIOCMSET
const TIOCM_CAR = realsyscall.TIOCM_CAR
const TIOCM_CD = realsyscall.TIOCM_CD
const TIOCM_CTS = realsyscall.TIOCM_CTS
const TIOCM_DSR = realsyscall.TIOCM_DSR
const TIOCM_DTR = realsyscall.TIOCM_DTR
const TIOCM_LE = realsyscall.TIOCM_LE
const TIOCM_RI = realsyscall.TIOCM_RI
const TIOCM_RNG = realsyscall.TIOCM_RNG
const TIOCM_RTS = realsyscall.TIOCM_RTS
const TIOCM_SR = realsyscall.TIOCM_SR
const TIOCM_ST = realsyscall.TIOCM_ST
const TIOCNOTTY = realsyscall.TIOCNOTTY
const TIOCNXCL = realsyscall.TIOCNXCL
const TIOCOUTQ = realsyscall.TIOCOUTQ
const TIOCPKT = realsyscall.TIOCPKT
const TIOCPKT_DATA = realsyscall.TIOCPKT_DATA
const TIOCPKT_DOSTOP = realsyscall.TIOCPKT_DOSTOP
const TIOCPKT_FLUSHREAD = realsyscall.TIOCPKT_FLUSHREAD
const TIOCPKT_FLUSHWRITE = realsyscall.TIOCPKT_FLUSHWRITE
const TIOCPKT_IOCTL = realsyscall.TIOCPKT_IOCTL
const TIOCPKT_NOSTOP = realsyscall.TIOCPKT_NOSTOP
const TIOCPKT_START = realsyscall.TIOCPKT_START
const TIOCPKT_STOP = realsyscall.TIOCPKT_STOP
const TIOCSBRK = realsyscall.TIOCSBRK
const TIOCSCTTY = realsyscall.TIOCSCTTY
const TIOCSERCONFIG = realsyscall.TIOCSERCONFIG
const TIOCSERGETLSR = realsyscall.TIOCSERGETLSR
const TIOCSERGETMULTI = realsyscall.TIOCSERGETMULTI
const TIOCSERGSTRUCT = realsyscall.TIOCSERGSTRUCT
const TIOCSERGWILD = realsyscall.TIOCSERGWILD
const TIOCSERSETMULTI = realsyscall.TIOCSERSETMULTI
const TIOCSERSWILD = realsyscall.TIOCSERSWILD
const TIOCSER_TEMT = realsyscall.TIOCSER_TEMT
const TIOCSETD = realsyscall.TIOCSETD
const TIOCSIG = realsyscall.TIOCSIG
const TIOCSLCKTRMIOS = realsyscall.TIOCSLCKTRMIOS
const TIOCSPGRP = realsyscall.TIOCSPGRP
const TIOCSPTLCK = realsyscall.TIOCSPTLCK
const TIOCSRS485 = realsyscall.TIOCSRS485
const TIOCSSERIAL = realsyscall.TIOCSSERIAL
const TIOCSSOFTCAR = realsyscall.TIOCSSOFTCAR
const TIOCSTI = realsyscall.TIOCSTI
const TIOCSWINSZ = realsyscall.TIOCSWINSZ
const TOSTOP = realsyscall.TOSTOP
const TUNATTACHFILTER = realsyscall.TUNATTACHFILTER
const TUNDETACHFILTER = realsyscall.TUNDETACHFILTER
const TUNGETFEATURES = realsyscall.TUNGETFEATURES
const TUNGETIFF = realsyscall.TUNGETIFF
const TUNGETSNDBUF = realsyscall.TUNGETSNDBUF
const TUNGETVNETHDRSZ = realsyscall.TUNGETVNETHDRSZ
const TUNSETDEBUG = realsyscall.TUNSETDEBUG
const TUNSETGROUP = realsyscall.TUNSETGROUP
const TUNSETIFF = realsyscall.TUNSETIFF
const TUNSETLINK = realsyscall.TUNSETLINK
const TUNSETNOCSUM = realsyscall.TUNSETNOCSUM
const TUNSETOFFLOAD = realsyscall.TUNSETOFFLOAD
const TUNSETOWNER = realsyscall.TUNSETOWNER
const TUNSETPERSIST = realsyscall.TUNSETPERSIST
const TUNSETSNDBUF = realsyscall.TUNSETSNDBUF
const TUNSETTXFILTER = realsyscall.TUNSETTXFILTER
const TUNSETVNETHDRSZ = realsyscall.TUNSETVNETHDRSZ

var Tee = realsyscall.Tee

type Termios = realsyscall.Termios

var Tgkill = realsyscall.Tgkill
var Time = realsyscall.Time

type Time_t = realsyscall.Time_t

var Times = realsyscall.Times

type Timespec = realsyscall.Timespec

var TimespecToNsec = realsyscall.TimespecToNsec

type Timeval = realsyscall.Timeval

var TimevalToNsec = realsyscall.TimevalToNsec

type Timex = realsyscall.Timex
type Tms = realsyscall.Tms
type Ucred = realsyscall.Ucred

var Umask = realsyscall.Umask
var Uname = realsyscall.Uname
var UnixCredentials = realsyscall.UnixCredentials
var UnixRights = realsyscall.UnixRights
var Unlinkat = realsyscall.Unlinkat
var Unsetenv = realsyscall.Unsetenv
var Unshare = realsyscall.Unshare
var Ustat = realsyscall.Ustat

type Ustat_t = realsyscall.Ustat_t
type Utimbuf = realsyscall.Utimbuf

var Utime = realsyscall.Utime
var Utimes = realsyscall.Utimes
var UtimesNano = realsyscall.UtimesNano

type Utsname = realsyscall.Utsname

const VDISCARD = realsyscall.VDISCARD
const VEOF = realsyscall.VEOF
const VEOL = realsyscall.VEOL
const VEOL2 = realsyscall.VEOL2
const VERASE = realsyscall.VERASE
const VINTR = realsyscall.VINTR
const VKILL = realsyscall.VKILL
const VLNEXT = realsyscall.VLNEXT
const VMIN = realsyscall.VMIN
const VQUIT = realsyscall.VQUIT
const VREPRINT = realsyscall.VREPRINT
const VSTART = realsyscall.VSTART
const VSTOP = realsyscall.VSTOP
const VSUSP = realsyscall.VSUSP
const VSWTC = realsyscall.VSWTC
const VTIME = realsyscall.VTIME
const VWERASE = realsyscall.VWERASE
const WALL = realsyscall.WALL
const WCLONE = realsyscall.WCLONE
const WCONTINUED = realsyscall.WCONTINUED
const WEXITED = realsyscall.WEXITED
const WNOHANG = realsyscall.WNOHANG
const WNOTHREAD = realsyscall.WNOTHREAD
const WNOWAIT = realsyscall.WNOWAIT
const WORDSIZE = realsyscall.WORDSIZE
const WSTOPPED = realsyscall.WSTOPPED
const WUNTRACED = realsyscall.WUNTRACED

var Wait4 = realsyscall.Wait4

type WaitStatus = realsyscall.WaitStatus

var Write = realsyscall.Write

const XCASE = realsyscall.XCASE
