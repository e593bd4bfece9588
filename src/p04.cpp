// P04: message identities pack and unpack without loss.
#include "mc.hpp"

#include "novatel_edie/decoders/common/common.hpp"

using namespace mc;
using namespace novatel::edie;

// reference layout (OEM7 manual): bits 0-15 message number, 16-20 source, 21-22 format, 23 response
static uint32_t refPack(uint32_t num, uint32_t src, uint32_t fmt, uint32_t rsp) { return num + src * 65536u + fmt * 2097152u + rsp * 8388608u; }

static void unpackIs(uint32_t packed, uint32_t num, uint32_t src, uint32_t fmt, uint32_t rsp)
{
    uint16_t n = static_cast<uint16_t>(~num);
    uint32_t s = ~src, f = ~fmt, r = ~rsp;
    UnpackMsgId(packed, n, s, f, r);
    MC_REQUIRE(n == num && s == src && f == fmt && r == rsp, "unpack",
               fmtf("UnpackMsgId(0x%08x) = (%u,%u,%u,%u), expected (%u,%u,%u,%u)", packed, n, s, f, r, num, src, fmt, rsp));
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P04";
    ck.level = "model_checking";
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    ck.rule = "all 65536 message numbers x 32 sources x 4 formats x 2 response flags: pack, compare with the documented layout, unpack, compare; the packed value is "
              "the index of the tuple, so equality with the layout on all tuples is injectivity. All 2^24 packed values are unpacked and repacked. outcome = packed identity "
              "class (source, format, response) and message type byte.";
    ck.assumptions = {"arguments are within the widths of the four fields, as the binary header defines them"};
    for (uint32_t blk = 0; blk < 256; blk++)
    {
        ck.unit(fmtf("tuples/%02x", blk), [blk] {
            const uint32_t src = blk & 31, fmt = (blk >> 5) & 3, rsp = blk >> 7;
            for (uint32_t num = 0; num < 65536; num++)
            {
                const uint32_t want = refPack(num, src, fmt, rsp);
                const uint32_t got = CreateMsgId(num, src, fmt, rsp);
                MC_REQUIRE(got == want, "pack", fmtf("CreateMsgId(%u,%u,%u,%u) = 0x%08x, expected 0x%08x", num, src, fmt, rsp, got, want));
                unpackIs(got, num, src, fmt, rsp);
            }
            addEvals(65536);
            addStates(65536);
            addTransitions(2 * 65536);
            distinct(blk);
            sample(fmtf("source %u format %u response %u: message 0x1234 packs to 0x%08x", src, fmt, rsp, CreateMsgId(0x1234, src, fmt, rsp)));
            // the message type byte of the binary header holds the same three values
            const unsigned char t = PackMsgType(src, fmt, rsp);
            MC_REQUIRE(t == src + 32 * fmt + 128 * rsp, "type", fmtf("PackMsgType(%u,%u,%u) = 0x%02x", src, fmt, rsp, t));
            MC_REQUIRE(static_cast<uint32_t>(t) << 16 == (CreateMsgId(0, src, fmt, rsp)), "type-vs-id", "the message type byte and the identity disagree");
        });
        ck.unit(fmtf("ids/%02x", blk), [blk] {
            // exact inverse in the other direction, on every 24-bit identity and with bits above it set (they carry nothing)
            for (uint32_t lo = 0; lo < 65536; lo++)
            {
                const uint32_t id = blk << 16 | lo;
                for (uint32_t top : {0u, 0xA5000000u, 0xFF000000u})
                {
                    uint16_t n = 0;
                    uint32_t s = 0, f = 0, r = 0;
                    UnpackMsgId(id | top, n, s, f, r);
                    const uint32_t back = CreateMsgId(n, s, f, r);
                    MC_REQUIRE(back == id, "repack", fmtf("identity 0x%08x unpacks to (%u,%u,%u,%u) which packs to 0x%08x", id | top, n, s, f, r, back));
                }
            }
            addEvals(65536 * 3);
            addStates(65536);
            addTransitions(65536 * 6);
            distinct(0x10000u + blk);
        });
    }
    return runCheck(ck, argc, argv);
}
