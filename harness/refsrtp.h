// Independent SRTP/SRTCP (RFC 3711, 7714) on OpenSSL primitives.
#pragma once
#include <cstdint>
#include <cstring>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <string>
#include <vector>

namespace refsrtp {
using Bytes = std::vector<uint8_t>;
enum class Profile { CM80, CM32, GCM128, GCM256 };
inline size_t keyLen(Profile p) { return p == Profile::GCM256 ? 32 : 16; }
inline size_t saltLen(Profile p) { return p == Profile::CM80 || p == Profile::CM32 ? 14 : 12; }
inline size_t tagLen(Profile p) { return p == Profile::CM80 ? 10 : p == Profile::CM32 ? 4 : 16; }
inline bool gcm(Profile p) { return p == Profile::GCM128 || p == Profile::GCM256; }

inline Bytes aesCtr(const Bytes& key, const uint8_t iv[16], const uint8_t* in, size_t n)
{
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    EVP_EncryptInit_ex(c, key.size() == 32 ? EVP_aes_256_ctr() : EVP_aes_128_ctr(), nullptr, key.data(), iv);
    Bytes out(n + 16);
    int len = 0;
    if (n) EVP_EncryptUpdate(c, out.data(), &len, in, static_cast<int>(n));
    out.resize(n);
    EVP_CIPHER_CTX_free(c);
    return out;
}
inline Bytes kdf(const Bytes& key, const Bytes& salt, uint8_t label, size_t n)
{
    uint8_t iv[16] = {};
    memcpy(iv, salt.data(), salt.size()); // left aligned in 14 bytes
    iv[7] ^= label;
    Bytes zero(n, 0);
    return aesCtr(key, iv, zero.data(), n);
}
inline Bytes hmac(const Bytes& key, const Bytes& data)
{
    uint8_t md[20]; unsigned n = 20;
    HMAC(EVP_sha1(), key.data(), static_cast<int>(key.size()), data.data(), data.size(), md, &n);
    return Bytes(md, md + 20);
}

struct Dir {
    Profile p;
    Bytes k, a, s, ck, ca, cs;
    Dir() = default;
    Dir(Profile pr, const Bytes& key, const Bytes& salt) : p(pr)
    {
        k = kdf(key, salt, 0, key.size()); a = kdf(key, salt, 1, 20); s = kdf(key, salt, 2, salt.size());
        ck = kdf(key, salt, 3, key.size()); ca = kdf(key, salt, 4, 20); cs = kdf(key, salt, 5, salt.size());
    }
    static size_t rtpHeader(const Bytes& b)
    {
        if (b.size() < 12) return 0;
        size_t n = 12 + 4 * (b[0] & 15);
        if (b[0] & 0x10) { if (b.size() < n + 4) return 0; n += 4 + 4 * (b[n + 2] << 8 | b[n + 3]); }
        return n <= b.size() ? n : 0;
    }
    static void p32(Bytes& b, uint32_t v) { for (int i = 24; i >= 0; i -= 8) b.push_back(v >> i); }
    void ivRtp(uint8_t* iv, const uint8_t* pkt, uint32_t roc) const
    {
        memset(iv, 0, 16);
        size_t o = gcm(p) ? 2 : 4;
        memcpy(iv + o, pkt + 8, 4);
        for (int i = 0; i < 4; i++) iv[o + 4 + i] = roc >> (24 - 8 * i);
        memcpy(iv + o + 8, pkt + 2, 2);
        for (size_t i = 0; i < s.size(); i++) iv[i] ^= s[i];
    }
    void ivRtcp(uint8_t* iv, const uint8_t* pkt, uint32_t idx) const
    {
        memset(iv, 0, 16);
        size_t o = gcm(p) ? 2 : 4;
        memcpy(iv + o, pkt + 4, 4);
        for (int i = 0; i < 4; i++) iv[o + 6 + i] = idx >> (24 - 8 * i);
        for (size_t i = 0; i < cs.size(); i++) iv[i] ^= cs[i];
    }
    static bool gcmRun(bool enc, const Bytes& key, const uint8_t* iv, const Bytes& aad, const uint8_t* in, size_t n, Bytes& out, uint8_t* tag)
    {
        EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
        const EVP_CIPHER* ci = key.size() == 32 ? EVP_aes_256_gcm() : EVP_aes_128_gcm();
        int len;
        out.assign(n + 16, 0);
        bool ok = EVP_CipherInit_ex(c, ci, nullptr, key.data(), iv, enc) == 1;
        if (!enc) EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_SET_TAG, 16, tag);
        ok = ok && EVP_CipherUpdate(c, nullptr, &len, aad.data(), static_cast<int>(aad.size())) == 1;
        len = 0;
        if (n) ok = ok && EVP_CipherUpdate(c, out.data(), &len, in, static_cast<int>(n)) == 1;
        int l2;
        ok = ok && EVP_CipherFinal_ex(c, out.data() + len, &l2) == 1;
        if (enc && ok) EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_GET_TAG, 16, tag);
        out.resize(n);
        EVP_CIPHER_CTX_free(c);
        return ok;
    }
    Bytes protectRtp(const Bytes& b, uint32_t roc) const
    {
        size_t h = rtpHeader(b);
        uint8_t iv[16]; ivRtp(iv, b.data(), roc);
        Bytes out(b.begin(), b.begin() + h), body;
        if (gcm(p)) {
            uint8_t tag[16];
            gcmRun(true, k, iv, Bytes(b.begin(), b.begin() + h), b.data() + h, b.size() - h, body, tag);
            out.insert(out.end(), body.begin(), body.end());
            out.insert(out.end(), tag, tag + 16);
        } else {
            body = aesCtr(k, iv, b.data() + h, b.size() - h);
            out.insert(out.end(), body.begin(), body.end());
            Bytes m = out; p32(m, roc);
            auto t = hmac(a, m);
            out.insert(out.end(), t.begin(), t.begin() + tagLen(p));
        }
        return out;
    }
    bool unprotectRtp(const Bytes& b, uint32_t roc, Bytes& out) const
    {
        size_t t = tagLen(p);
        if (b.size() < 12 + t) return false;
        Bytes core(b.begin(), b.end() - t);
        size_t h = rtpHeader(core);
        if (!h) return false;
        uint8_t iv[16]; ivRtp(iv, b.data(), roc);
        Bytes body;
        if (gcm(p)) {
            uint8_t tag[16]; memcpy(tag, b.data() + b.size() - 16, 16);
            if (!gcmRun(false, k, iv, Bytes(b.begin(), b.begin() + h), b.data() + h, core.size() - h, body, tag)) return false;
        } else {
            Bytes m = core; p32(m, roc);
            auto x = hmac(a, m);
            if (memcmp(x.data(), b.data() + core.size(), t) != 0) return false;
            body = aesCtr(k, iv, b.data() + h, core.size() - h);
        }
        out.assign(b.begin(), b.begin() + h);
        out.insert(out.end(), body.begin(), body.end());
        return true;
    }
    Bytes protectRtcp(const Bytes& b, uint32_t idx, bool encrypt = true) const
    {
        uint8_t iv[16]; ivRtcp(iv, b.data(), idx);
        Bytes trailer; p32(trailer, idx | (encrypt ? 0x80000000u : 0));
        Bytes out(b.begin(), b.begin() + 8), body;
        if (gcm(p)) {
            Bytes aad = encrypt ? out : b;
            aad.insert(aad.end(), trailer.begin(), trailer.end());
            uint8_t tag[16];
            if (encrypt) gcmRun(true, ck, iv, aad, b.data() + 8, b.size() - 8, body, tag);
            else { Bytes none; gcmRun(true, ck, iv, aad, nullptr, 0, none, tag); body.assign(b.begin() + 8, b.end()); }
            out.insert(out.end(), body.begin(), body.end());
            out.insert(out.end(), tag, tag + 16);
            out.insert(out.end(), trailer.begin(), trailer.end());
        } else {
            body = encrypt ? aesCtr(ck, iv, b.data() + 8, b.size() - 8) : Bytes(b.begin() + 8, b.end());
            out.insert(out.end(), body.begin(), body.end());
            out.insert(out.end(), trailer.begin(), trailer.end());
            auto t = hmac(ca, out);
            out.insert(out.end(), t.begin(), t.begin() + 10);
        }
        return out;
    }
    bool unprotectRtcp(const Bytes& b, uint32_t& idx, bool& encrypted, Bytes& out) const
    {
        size_t t = gcm(p) ? 16 : 10;
        if (b.size() < 8 + 4 + t) return false;
        size_t to = gcm(p) ? b.size() - 4 : b.size() - 14;
        uint32_t tr = uint32_t(b[to]) << 24 | b[to + 1] << 16 | b[to + 2] << 8 | b[to + 3];
        idx = tr & 0x7FFFFFFF; encrypted = tr >> 31;
        uint8_t iv[16]; ivRtcp(iv, b.data(), idx);
        Bytes body;
        if (gcm(p)) {
            size_t n = b.size() - 8 - 20;
            uint8_t tag[16]; memcpy(tag, b.data() + b.size() - 20, 16);
            Bytes aad(b.begin(), b.begin() + (encrypted ? 8 : 8 + n));
            aad.insert(aad.end(), b.end() - 4, b.end());
            if (encrypted) { if (!gcmRun(false, ck, iv, aad, b.data() + 8, n, body, tag)) return false; }
            else { Bytes none; if (!gcmRun(false, ck, iv, aad, nullptr, 0, none, tag)) return false; body.assign(b.begin() + 8, b.begin() + 8 + n); }
        } else {
            Bytes m(b.begin(), b.end() - 10);
            auto x = hmac(ca, m);
            if (memcmp(x.data(), b.data() + b.size() - 10, 10) != 0) return false;
            size_t n = b.size() - 8 - 14;
            body = encrypted ? aesCtr(ck, iv, b.data() + 8, n) : Bytes(b.begin() + 8, b.begin() + 8 + n);
        }
        out.assign(b.begin(), b.begin() + 8);
        out.insert(out.end(), body.begin(), body.end());
        return true;
    }
};
} // namespace refsrtp
