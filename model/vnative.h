/* force-included in the native (replay) build; the sources are otherwise
 * compiled as they are, against the real GLib */
#ifndef VNATIVE_H
#define VNATIVE_H
#endif
