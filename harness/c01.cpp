// C01: SLIP codec.
#include "h.h"
#include "slipdataprocessor.h"
static const uint8_t END = 0xC0, ESC = 0xDB, TEND = 0xDC, TESC = 0xDD;

// serialize any payload: one delimiter, at the end; deserialize gives the payload back; plain RFC 1055 bytes
extern "C" void roundtrip()
{
    int n = (int)vp_param("len", 5); n = vp_choice(n + 1, "length"); QByteArray in = symBytes(n, "byte"), keep(in.constData(), n);
    QByteArray enc = SlipDataProcessor::serializeData(in);
    vp_assert(enc.size() >= 1, "encoding is empty");
    bool inner = false; for (int i = 0; i + 1 < enc.size(); i++) inner |= (uint8_t)enc.at(i) == END;
    vp_assert(!inner, "delimiter inside the encoded frame");
    vp_assert((uint8_t)enc.at(enc.size() - 1) == END, "encoded frame does not end with the delimiter");
    QByteArray ref; for (int i = 0; i < n; i++) { uint8_t b = keep.at(i); if (b == END) { ref.append((char)ESC); ref.append((char)TEND); } else if (b == ESC) { ref.append((char)ESC); ref.append((char)TESC); } else ref.append((char)b); } ref.append((char)END);
    vp_assert(eqBytes(enc, ref), "encoding differs from RFC 1055");
    vp_assert(eqBytes(in, keep), "input modified");
    QByteArray dec = SlipDataProcessor::deserializeData(enc);
    vp_assert(dec.size() == n, "decoded length differs");
    vp_assert(eqBytes(dec, keep), "decoded bytes differ");
    if (n > 2) vp_cover("payload of three or more bytes"); if (enc.size() == 2 * n + 1 && n > 1) vp_cover("all bytes escaped");
    logb("enc", enc);
}
// any encoded input
extern "C" void decode()
{
    int n = vp_choice((int)vp_param("len", 5) + 1, "length"); QByteArray in = symBytes(n, "byte");
    QByteArray ref; bool bad = false, open = false, done = false;
    for (int i = 0; i < n && !bad && !done; i++) {
        uint8_t b = in.at(i);
        if (open) { open = false; if (b == TEND) ref.append((char)END); else if (b == TESC) ref.append((char)ESC); else bad = true; }
        else if (b == ESC) open = true; else if (b == END) done = true; else ref.append((char)b);
    }
    QByteArray dec = SlipDataProcessor::deserializeData(in);
    logb("dec", dec); logi("null", dec.isNull());
    if (bad) { vp_cover("invalid escape"); vp_assert(dec.isNull() && dec.isEmpty(), "invalid escape sequence accepted"); return; }
    if (open) { vp_cover("ends within an escape sequence"); vp_assert(dec.isNull() && dec.isEmpty(), "input that ends within an escape sequence accepted"); return; }
    if (ref.size() > 2) vp_cover("decoded several bytes");
    vp_assert(dec.size() == ref.size(), "decoded length differs"); vp_assert(eqBytes(dec, ref), "decoded bytes differ");
}
// frames
extern "C" void frame()
{
    int n = vp_choice((int)vp_param("len", 5) + 1, "length"); SlipDataProcessor::Frame f; uint16_t a = (uint16_t)vp_sym(16, "address"); f.socketAddress = a; f.data = symBytes(n, "byte"); QByteArray keep(f.data.constData(), n);
    QByteArray raw = SlipDataProcessor::buildFrame(f); logb("raw", raw);
    vp_assert(raw.size() == n + 2, "frame length"); vp_assert((uint8_t)raw.at(0) == (a >> 8), "address high byte"); vp_assert((uint8_t)raw.at(1) == (a & 255), "address low byte"); vp_assert(eqBytes(raw.mid(2), keep), "frame payload");
    SlipDataProcessor::Frame g = SlipDataProcessor::parseFrame(raw);
    vp_assert(g.socketAddress == a, "parsed address differs"); vp_assert(eqBytes(g.data, keep), "parsed payload differs");
    QByteArray wire = SlipDataProcessor::serializeData(raw); SlipDataProcessor::Frame k = SlipDataProcessor::parseFrame(SlipDataProcessor::deserializeData(wire));
    vp_assert(k.socketAddress == a && eqBytes(k.data, keep), "frame changed by the wire encoding");
    vp_cover("frame built and parsed");
}
// long payloads
extern "C" void sizes()
{
    SlipDataProcessor::Frame f; f.socketAddress = 0xC0DB; f.data = longBytes((int)vp_param("few", 1)); int n = f.data.size(); QByteArray keep(f.data.constData(), n), raw = SlipDataProcessor::buildFrame(f); vp_assert(raw.size() == n + 2, "frame length"); QByteArray wire = SlipDataProcessor::serializeData(raw); int esc = 0; bool inner = false; for (int i = 0; i < wire.size(); i++) { if ((uint8_t)wire.at(i) == ESC) esc++; if (i + 1 < wire.size()) inner |= (uint8_t)wire.at(i) == END; } vp_assert(!inner && (uint8_t)wire.at(wire.size() - 1) == END, "delimiter"); vp_assert(wire.size() == n + 2 + esc + 1, "encoded length");
    QByteArray dec = SlipDataProcessor::deserializeData(wire); SlipDataProcessor::Frame g = SlipDataProcessor::parseFrame(dec); vp_assert(g.socketAddress == 0xC0DB && g.data.size() == n && eqBytes(g.data, keep), "payload differs"); logi("n", n); vp_cover("long payload");
}
