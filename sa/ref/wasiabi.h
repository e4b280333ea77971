/*
 * Layout of what is exchanged with guests, as published for WASI preview 1.
 */
struct abi_fdstat {
        uint8_t fs_filetype;
        uint8_t pad1;
        uint16_t fs_flags;
        uint8_t pad2[4];
        uint64_t fs_rights_base;
        uint64_t fs_rights_inheriting;
};

struct abi_fd_prestat {
        uint8_t type;
        uint8_t pad[3];
        uint32_t dir_name_len;
};

struct abi_unstable_filestat {
        uint64_t dev;
        uint64_t ino;
        uint8_t type;
        uint8_t pad[3];
        uint32_t linkcount;
        uint64_t size;
        uint64_t atim;
        uint64_t mtim;
        uint64_t ctim;
};

struct abi_filestat {
        uint64_t dev;
        uint64_t ino;
        uint8_t type;
        uint8_t pad[7];
        uint64_t linkcount;
        uint64_t size;
        uint64_t atim;
        uint64_t mtim;
        uint64_t ctim;
};

struct abi_subscription {
        uint64_t userdata;
        uint8_t type;
        uint8_t pad[7];
        union {
                struct {
                        uint32_t clock_id;
                        uint32_t pad1;
                        uint64_t timeout;
                        uint64_t precision;
                        uint16_t flags;
                        uint16_t pad2;
                        uint32_t pad3;
                } clock;
                uint32_t fd;
        } u;
};

struct abi_event {
        uint64_t userdata;
        uint16_t error;
        uint8_t type;
        uint8_t pad1[5];
        uint64_t availbytes;
        uint16_t rwflags;
        uint8_t pad2[6];
};

struct abi_dirent {
        uint64_t d_next;
        uint64_t d_ino;
        uint32_t d_namlen;
        uint8_t d_type;
        uint8_t pad[3];
};

struct abi_iov {
        uint32_t iov_base;
        uint32_t iov_len;
};

#define wasi_fdstat abi_fdstat
#define wasi_fd_prestat abi_fd_prestat
#define wasi_unstable_filestat abi_unstable_filestat
#define wasi_filestat abi_filestat
#define wasi_dirent abi_dirent
#define wasi_iov abi_iov
