//go:build go1.22

package unix

import (
	"syscall"

	real "golang.org/x/sys/unix"
)

type (
	SysProcAttr = syscall.SysProcAttr
	WaitStatus  = real.WaitStatus
	Rusage      = real.Rusage
	Signal      = syscall.Signal
	Errno       = syscall.Errno
)

const (
	E2BIG               = real.E2BIG
	EACCES              = real.EACCES
	EADDRINUSE          = real.EADDRINUSE
	EADDRNOTAVAIL       = real.EADDRNOTAVAIL
	EADV                = real.EADV
	EAFNOSUPPORT        = real.EAFNOSUPPORT
	EAGAIN              = real.EAGAIN
	EALREADY            = real.EALREADY
	EBADE               = real.EBADE
	EBADF               = real.EBADF
	EBADFD              = real.EBADFD
	EBADMSG             = real.EBADMSG
	EBADR               = real.EBADR
	EBADRQC             = real.EBADRQC
	EBADSLT             = real.EBADSLT
	EBFONT              = real.EBFONT
	EBUSY               = real.EBUSY
	ECANCELED           = real.ECANCELED
	ECCGETLAYOUT        = real.ECCGETLAYOUT
	ECCGETSTATS         = real.ECCGETSTATS
	ECHILD              = real.ECHILD
	ECHO                = real.ECHO
	ECHOCTL             = real.ECHOCTL
	ECHOE               = real.ECHOE
	ECHOK               = real.ECHOK
	ECHOKE              = real.ECHOKE
	ECHONL              = real.ECHONL
	ECHOPRT             = real.ECHOPRT
	ECHRNG              = real.ECHRNG
	ECOMM               = real.ECOMM
	ECONNABORTED        = real.ECONNABORTED
	ECONNREFUSED        = real.ECONNREFUSED
	ECONNRESET          = real.ECONNRESET
	EDEADLK             = real.EDEADLK
	EDEADLOCK           = real.EDEADLOCK
	EDESTADDRREQ        = real.EDESTADDRREQ
	EDOM                = real.EDOM
	EDOTDOT             = real.EDOTDOT
	EDQUOT              = real.EDQUOT
	EEXIST              = real.EEXIST
	EFAULT              = real.EFAULT
	EFBIG               = real.EFBIG
	EHOSTDOWN           = real.EHOSTDOWN
	EHOSTUNREACH        = real.EHOSTUNREACH
	EHWPOISON           = real.EHWPOISON
	EIDRM               = real.EIDRM
	EILSEQ              = real.EILSEQ
	EINPROGRESS         = real.EINPROGRESS
	EINTR               = real.EINTR
	EINVAL              = real.EINVAL
	EIO                 = real.EIO
	EISCONN             = real.EISCONN
	EISDIR              = real.EISDIR
	EISNAM              = real.EISNAM
	EKEYEXPIRED         = real.EKEYEXPIRED
	EKEYREJECTED        = real.EKEYREJECTED
	EKEYREVOKED         = real.EKEYREVOKED
	EL2HLT              = real.EL2HLT
	EL2NSYNC            = real.EL2NSYNC
	EL3HLT              = real.EL3HLT
	EL3RST              = real.EL3RST
	ELIBACC             = real.ELIBACC
	ELIBBAD             = real.ELIBBAD
	ELIBEXEC            = real.ELIBEXEC
	ELIBMAX             = real.ELIBMAX
	ELIBSCN             = real.ELIBSCN
	ELNRNG              = real.ELNRNG
	ELOOP               = real.ELOOP
	EMEDIUMTYPE         = real.EMEDIUMTYPE
	EMFILE              = real.EMFILE
	EMLINK              = real.EMLINK
	EMSGSIZE            = real.EMSGSIZE
	EMULTIHOP           = real.EMULTIHOP
	ENAMETOOLONG        = real.ENAMETOOLONG
	ENAVAIL             = real.ENAVAIL
	ENETDOWN            = real.ENETDOWN
	ENETRESET           = real.ENETRESET
	ENETUNREACH         = real.ENETUNREACH
	ENFILE              = real.ENFILE
	ENOANO              = real.ENOANO
	ENOBUFS             = real.ENOBUFS
	ENOCSI              = real.ENOCSI
	ENODATA             = real.ENODATA
	ENODEV              = real.ENODEV
	ENOENT              = real.ENOENT
	ENOEXEC             = real.ENOEXEC
	ENOKEY              = real.ENOKEY
	ENOLCK              = real.ENOLCK
	ENOLINK             = real.ENOLINK
	ENOMEDIUM           = real.ENOMEDIUM
	ENOMEM              = real.ENOMEM
	ENOMSG              = real.ENOMSG
	ENONET              = real.ENONET
	ENOPKG              = real.ENOPKG
	ENOPROTOOPT         = real.ENOPROTOOPT
	ENOSPC              = real.ENOSPC
	ENOSR               = real.ENOSR
	ENOSTR              = real.ENOSTR
	ENOSYS              = real.ENOSYS
	ENOTBLK             = real.ENOTBLK
	ENOTCONN            = real.ENOTCONN
	ENOTDIR             = real.ENOTDIR
	ENOTEMPTY           = real.ENOTEMPTY
	ENOTNAM             = real.ENOTNAM
	ENOTRECOVERABLE     = real.ENOTRECOVERABLE
	ENOTSOCK            = real.ENOTSOCK
	ENOTSUP             = real.ENOTSUP
	ENOTTY              = real.ENOTTY
	ENOTUNIQ            = real.ENOTUNIQ
	ENXIO               = real.ENXIO
	EOPNOTSUPP          = real.EOPNOTSUPP
	EOVERFLOW           = real.EOVERFLOW
	EOWNERDEAD          = real.EOWNERDEAD
	EPERM               = real.EPERM
	EPFNOSUPPORT        = real.EPFNOSUPPORT
	EPIPE               = real.EPIPE
	EPOLLERR            = real.EPOLLERR
	EPOLLET             = real.EPOLLET
	EPOLLEXCLUSIVE      = real.EPOLLEXCLUSIVE
	EPOLLHUP            = real.EPOLLHUP
	EPOLLIN             = real.EPOLLIN
	EPOLLMSG            = real.EPOLLMSG
	EPOLLONESHOT        = real.EPOLLONESHOT
	EPOLLOUT            = real.EPOLLOUT
	EPOLLPRI            = real.EPOLLPRI
	EPOLLRDBAND         = real.EPOLLRDBAND
	EPOLLRDHUP          = real.EPOLLRDHUP
	EPOLLRDNORM         = real.EPOLLRDNORM
	EPOLLWAKEUP         = real.EPOLLWAKEUP
	EPOLLWRBAND         = real.EPOLLWRBAND
	EPOLLWRNORM         = real.EPOLLWRNORM
	EPROTO              = real.EPROTO
	EPROTONOSUPPORT     = real.EPROTONOSUPPORT
	EPROTOTYPE          = real.EPROTOTYPE
	ERANGE              = real.ERANGE
	EREMCHG             = real.EREMCHG
	EREMOTE             = real.EREMOTE
	EREMOTEIO           = real.EREMOTEIO
	ERESTART            = real.ERESTART
	ERFKILL             = real.ERFKILL
	EROFS               = real.EROFS
	ESHUTDOWN           = real.ESHUTDOWN
	ESOCKTNOSUPPORT     = real.ESOCKTNOSUPPORT
	ESPIPE              = real.ESPIPE
	ESRCH               = real.ESRCH
	ESRMNT              = real.ESRMNT
	ESTALE              = real.ESTALE
	ESTRPIPE            = real.ESTRPIPE
	ETIME               = real.ETIME
	ETIMEDOUT           = real.ETIMEDOUT
	ETOOMANYREFS        = real.ETOOMANYREFS
	ETXTBSY             = real.ETXTBSY
	EUCLEAN             = real.EUCLEAN
	EUNATCH             = real.EUNATCH
	EUSERS              = real.EUSERS
	EWOULDBLOCK         = real.EWOULDBLOCK
	EXDEV               = real.EXDEV
	EXFULL              = real.EXFULL
	EXTA                = real.EXTA
	EXTB                = real.EXTB
	EXTPROC             = real.EXTPROC
	F_ADD_SEALS         = real.F_ADD_SEALS
	F_DUPFD             = real.F_DUPFD
	F_DUPFD_CLOEXEC     = real.F_DUPFD_CLOEXEC
	F_EXLCK             = real.F_EXLCK
	F_GETFD             = real.F_GETFD
	F_GETFL             = real.F_GETFL
	F_GETLEASE          = real.F_GETLEASE
	F_GETLK             = real.F_GETLK
	F_GETLK64           = real.F_GETLK64
	F_GETOWN            = real.F_GETOWN
	F_GETOWN_EX         = real.F_GETOWN_EX
	F_GETPIPE_SZ        = real.F_GETPIPE_SZ
	F_GETSIG            = real.F_GETSIG
	F_GET_FILE_RW_HINT  = real.F_GET_FILE_RW_HINT
	F_GET_RW_HINT       = real.F_GET_RW_HINT
	F_GET_SEALS         = real.F_GET_SEALS
	F_LOCK              = real.F_LOCK
	F_NOTIFY            = real.F_NOTIFY
	F_OFD_GETLK         = real.F_OFD_GETLK
	F_OFD_SETLK         = real.F_OFD_SETLK
	F_OFD_SETLKW        = real.F_OFD_SETLKW
	F_OK                = real.F_OK
	F_RDLCK             = real.F_RDLCK
	F_SEAL_FUTURE_WRITE = real.F_SEAL_FUTURE_WRITE
	F_SEAL_GROW         = real.F_SEAL_GROW
	F_SEAL_SEAL         = real.F_SEAL_SEAL
	F_SEAL_SHRINK       = real.F_SEAL_SHRINK
	F_SEAL_WRITE        = real.F_SEAL_WRITE
	F_SETFD             = real.F_SETFD
	F_SETFL             = real.F_SETFL
	F_SETLEASE          = real.F_SETLEASE
	F_SETLK             = real.F_SETLK
	F_SETLK64           = real.F_SETLK64
	F_SETLKW            = real.F_SETLKW
	F_SETLKW64          = real.F_SETLKW64
	F_SETOWN            = real.F_SETOWN
	F_SETOWN_EX         = real.F_SETOWN_EX
	F_SETPIPE_SZ        = real.F_SETPIPE_SZ
	F_SETSIG            = real.F_SETSIG
	F_SET_FILE_RW_HINT  = real.F_SET_FILE_RW_HINT
	F_SET_RW_HINT       = real.F_SET_RW_HINT
	F_SHLCK             = real.F_SHLCK
	F_TEST              = real.F_TEST
	F_TLOCK             = real.F_TLOCK
	F_ULOCK             = real.F_ULOCK
	F_UNLCK             = real.F_UNLCK
	F_WRLCK             = real.F_WRLCK
	O_ACCMODE           = real.O_ACCMODE
	O_APPEND            = real.O_APPEND
	O_ASYNC             = real.O_ASYNC
	O_CLOEXEC           = real.O_CLOEXEC
	O_CREAT             = real.O_CREAT
	O_DIRECT            = real.O_DIRECT
	O_DIRECTORY         = real.O_DIRECTORY
	O_DSYNC             = real.O_DSYNC
	O_EXCL              = real.O_EXCL
	O_FSYNC             = real.O_FSYNC
	O_LARGEFILE         = real.O_LARGEFILE
	O_NDELAY            = real.O_NDELAY
	O_NOATIME           = real.O_NOATIME
	O_NOCTTY            = real.O_NOCTTY
	O_NOFOLLOW          = real.O_NOFOLLOW
	O_NONBLOCK          = real.O_NONBLOCK
	O_PATH              = real.O_PATH
	O_RDONLY            = real.O_RDONLY
	O_RDWR              = real.O_RDWR
	O_RSYNC             = real.O_RSYNC
	O_SYNC              = real.O_SYNC
	O_TMPFILE           = real.O_TMPFILE
	O_TRUNC             = real.O_TRUNC
	O_WRONLY            = real.O_WRONLY
	SIGABRT             = real.SIGABRT
	SIGALRM             = real.SIGALRM
	SIGBUS              = real.SIGBUS
	SIGCHLD             = real.SIGCHLD
	SIGCLD              = real.SIGCLD
	SIGCONT             = real.SIGCONT
	SIGFPE              = real.SIGFPE
	SIGHUP              = real.SIGHUP
	SIGILL              = real.SIGILL
	SIGINT              = real.SIGINT
	SIGIO               = real.SIGIO
	SIGIOT              = real.SIGIOT
	SIGKILL             = real.SIGKILL
	SIGPIPE             = real.SIGPIPE
	SIGPOLL             = real.SIGPOLL
	SIGPROF             = real.SIGPROF
	SIGPWR              = real.SIGPWR
	SIGQUIT             = real.SIGQUIT
	SIGSEGV             = real.SIGSEGV
	SIGSTKFLT           = real.SIGSTKFLT
	SIGSTOP             = real.SIGSTOP
	SIGSYS              = real.SIGSYS
	SIGTERM             = real.SIGTERM
	SIGTRAP             = real.SIGTRAP
	SIGTSTP             = real.SIGTSTP
	SIGTTIN             = real.SIGTTIN
	SIGTTOU             = real.SIGTTOU
	SIGURG              = real.SIGURG
	SIGUSR1             = real.SIGUSR1
	SIGUSR2             = real.SIGUSR2
	SIGVTALRM           = real.SIGVTALRM
	SIGWINCH            = real.SIGWINCH
	SIGXCPU             = real.SIGXCPU
	SIGXFSZ             = real.SIGXFSZ
	S_IEXEC             = real.S_IEXEC
	S_IFBLK             = real.S_IFBLK
	S_IFCHR             = real.S_IFCHR
	S_IFDIR             = real.S_IFDIR
	S_IFIFO             = real.S_IFIFO
	S_IFLNK             = real.S_IFLNK
	S_IFMT              = real.S_IFMT
	S_IFREG             = real.S_IFREG
	S_IFSOCK            = real.S_IFSOCK
	S_IREAD             = real.S_IREAD
	S_IRGRP             = real.S_IRGRP
	S_IROTH             = real.S_IROTH
	S_IRUSR             = real.S_IRUSR
	S_IRWXG             = real.S_IRWXG
	S_IRWXO             = real.S_IRWXO
	S_IRWXU             = real.S_IRWXU
	S_ISGID             = real.S_ISGID
	S_ISUID             = real.S_ISUID
	S_ISVTX             = real.S_ISVTX
	S_IWGRP             = real.S_IWGRP
	S_IWOTH             = real.S_IWOTH
	S_IWRITE            = real.S_IWRITE
	S_IWUSR             = real.S_IWUSR
	S_IXGRP             = real.S_IXGRP
	S_IXOTH             = real.S_IXOTH
	S_IXUSR             = real.S_IXUSR
	TCGETA              = real.TCGETA
	TCGETS              = real.TCGETS
	TCGETS2             = real.TCGETS2
	TCGETX              = real.TCGETX
	TCSETA              = real.TCSETA
	TCSETAF             = real.TCSETAF
	TCSETAW             = real.TCSETAW
	TCSETS              = real.TCSETS
	TCSETS2             = real.TCSETS2
	TCSETSF             = real.TCSETSF
	TCSETSF2            = real.TCSETSF2
	TCSETSW             = real.TCSETSW
	TCSETSW2            = real.TCSETSW2
	TCSETX              = real.TCSETX
	TCSETXF             = real.TCSETXF
	TCSETXW             = real.TCSETXW
	TIOCCBRK            = real.TIOCCBRK
	TIOCCONS            = real.TIOCCONS
	TIOCEXCL            = real.TIOCEXCL
	TIOCGDEV            = real.TIOCGDEV
	TIOCGETD            = real.TIOCGETD
	TIOCGEXCL           = real.TIOCGEXCL
	TIOCGICOUNT         = real.TIOCGICOUNT
	TIOCGISO7816        = real.TIOCGISO7816
	TIOCGLCKTRMIOS      = real.TIOCGLCKTRMIOS
	TIOCGPGRP           = real.TIOCGPGRP
	TIOCGPKT            = real.TIOCGPKT
	TIOCGPTLCK          = real.TIOCGPTLCK
	TIOCGPTN            = real.TIOCGPTN
	TIOCGPTPEER         = real.TIOCGPTPEER
	TIOCGRS485          = real.TIOCGRS485
	TIOCGSERIAL         = real.TIOCGSERIAL
	TIOCGSID            = real.TIOCGSID
	TIOCGSOFTCAR        = real.TIOCGSOFTCAR
	TIOCGWINSZ          = real.TIOCGWINSZ
	TIOCINQ             = real.TIOCINQ
	TIOCLINUX           = real.TIOCLINUX
	TIOCMBIC            = real.TIOCMBIC
	TIOCMBIS            = real.TIOCMBIS
	TIOCMGET            = real.TIOCMGET
	TIOCMIWAIT          = real.TIOCMIWAIT
	TIOCMSET            = real.TIOCMSET
	TIOCM_CAR           = real.TIOCM_CAR
	TIOCM_CD            = real.TIOCM_CD
	TIOCM_CTS           = real.TIOCM_CTS
	TIOCM_DSR           = real.TIOCM_DSR
	TIOCM_DTR           = real.TIOCM_DTR
	TIOCM_LE            = real.TIOCM_LE
	TIOCM_RI            = real.TIOCM_RI
	TIOCM_RNG           = real.TIOCM_RNG
	TIOCM_RTS           = real.TIOCM_RTS
	TIOCM_SR            = real.TIOCM_SR
	TIOCM_ST            = real.TIOCM_ST
	TIOCNOTTY           = real.TIOCNOTTY
	TIOCNXCL            = real.TIOCNXCL
	TIOCOUTQ            = real.TIOCOUTQ
	TIOCPKT             = real.TIOCPKT
	TIOCPKT_DATA        = real.TIOCPKT_DATA
	TIOCPKT_DOSTOP      = real.TIOCPKT_DOSTOP
	TIOCPKT_FLUSHREAD   = real.TIOCPKT_FLUSHREAD
	TIOCPKT_FLUSHWRITE  = real.TIOCPKT_FLUSHWRITE
	TIOCPKT_IOCTL       = real.TIOCPKT_IOCTL
	TIOCPKT_NOSTOP      = real.TIOCPKT_NOSTOP
	TIOCPKT_START       = real.TIOCPKT_START
	TIOCPKT_STOP        = real.TIOCPKT_STOP
	TIOCSBRK            = real.TIOCSBRK
	TIOCSCTTY           = real.TIOCSCTTY
	TIOCSERCONFIG       = real.TIOCSERCONFIG
	TIOCSERGETLSR       = real.TIOCSERGETLSR
	TIOCSERGETMULTI     = real.TIOCSERGETMULTI
	TIOCSERGSTRUCT      = real.TIOCSERGSTRUCT
	TIOCSERGWILD        = real.TIOCSERGWILD
	TIOCSERSETMULTI     = real.TIOCSERSETMULTI
	TIOCSERSWILD        = real.TIOCSERSWILD
	TIOCSER_TEMT        = real.TIOCSER_TEMT
	TIOCSETD            = real.TIOCSETD
	TIOCSIG             = real.TIOCSIG
	TIOCSISO7816        = real.TIOCSISO7816
	TIOCSLCKTRMIOS      = real.TIOCSLCKTRMIOS
	TIOCSPGRP           = real.TIOCSPGRP
	TIOCSPTLCK          = real.TIOCSPTLCK
	TIOCSRS485          = real.TIOCSRS485
	TIOCSSERIAL         = real.TIOCSSERIAL
	TIOCSSOFTCAR        = real.TIOCSSOFTCAR
	TIOCSTI             = real.TIOCSTI
	TIOCSWINSZ          = real.TIOCSWINSZ
	TIOCVHANGUP         = real.TIOCVHANGUP
	WALL                = real.WALL
	WCLONE              = real.WCLONE
	WCONTINUED          = real.WCONTINUED
	WEXITED             = real.WEXITED
	WNOHANG             = real.WNOHANG
	WNOTHREAD           = real.WNOTHREAD
	WNOWAIT             = real.WNOWAIT
	WORDSIZE            = real.WORDSIZE
	WSTOPPED            = real.WSTOPPED
	WUNTRACED           = real.WUNTRACED
)
