"""Codec that fails on request."""
import numcodecs
import numcodecs.abc
import numcodecs.registry

#: Number of encodings before the failure; None: never.
countdown = None


class FailCodec(numcodecs.abc.Codec):
    codec_id = 'zv_fail'

    def encode(self, buf):
        global countdown
        if countdown is not None:
            if countdown == 0:
                countdown = None
                raise RuntimeError('cannot encode')
            countdown -= 1
        return numcodecs.Zlib(1).encode(buf)

    def decode(self, buf, out=None):
        return numcodecs.Zlib(1).decode(buf, out)


numcodecs.registry.register_codec(FailCodec)
