// P21: the hashes made with OpenSSL, against its general interface that takes an algorithm by name.
#include "pbt.h"
#include <cstdint>
#include <iterator>
#include <vector>
#include "Awl/Crypto/OpenSslHash.h"
#include <openssl/evp.h>

namespace
{
    template <class H> void check(pbt::Src& s, const char* name, size_t size)
    {
        std::vector<uint8_t> data(s.length(300));
        for (uint8_t& b : data) b = static_cast<uint8_t>(s.draw(255));
        s.note(name, " of ", data.size(), " bytes");
        uint8_t digest[EVP_MAX_MD_SIZE];
        unsigned length = 0;
        const uint8_t none = 0;
        const uint8_t* begin = data.empty() ? &none : data.data();
        PBT_CHECK(EVP_Digest(begin, data.size(), digest, &length, EVP_get_digestbyname(name), nullptr) == 1 && length == size, "the harness");
        PBT_CHECK(H::size() == size, "the size of a hash");
        const H hash;
        const typename H::value_type v = hash(begin, begin + data.size());
        PBT_CHECK(std::equal(v.begin(), v.end(), digest, digest + length), name, " of ", data.size(), " bytes");
        if (!data.empty()) PBT_CHECK((v == hash(data.begin(), data.end()) && v == hash(data.cbegin(), data.cend())), name, " through iterators");
        if (data.size() > 8) s.nontrivial();
    }
}

PBT_PROPERTY(openssl_hashes, 6000, 100000)
{
    switch (s.below(4))
    {
    case 0: check<awl::crypto::Md5>(s, "MD5", 16); break;
    case 1: check<awl::crypto::Sha1>(s, "SHA1", 20); break;
    case 2: check<awl::crypto::Sha256>(s, "SHA256", 32); break;
    default: check<awl::crypto::Sha512>(s, "SHA512", 64); break;
    }
}
