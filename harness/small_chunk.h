/* force-included where a property is decided with a small chunk size limit in
 * place of the 65535 bytes of the protocol */
#include <milter/core/milter-protocol.h>
#undef MILTER_CHUNK_SIZE
#define MILTER_CHUNK_SIZE VCHUNK
