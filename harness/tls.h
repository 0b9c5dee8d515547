// Certificates made on the spot, and a TLS client over memory buffers.
#pragma once
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include <sys/stat.h>

#include <fstream>
#include <string>

#include "pbt.h"

namespace tls {
using pbt::Bytes;

struct Pair {
    std::string cert, key;  // file names
    std::string cert_pem, key_pem;
};
inline std::string pem(auto write) {
    BIO* b = BIO_new(BIO_s_mem());
    write(b);
    char* p = nullptr;
    const long n = BIO_get_mem_data(b, &p);
    std::string s(p, static_cast<size_t>(n));
    BIO_free(b);
    return s;
}
inline void put_file(const std::string& name, const std::string& content) {
    std::ofstream(name, std::ios::binary) << content;
}
inline std::string scratch() {
    const char* s = getenv("ION_SCRATCH");
    const std::string d = std::string(s ? s : "/tmp") + "/tls" + std::to_string(getpid());
    mkdir(d.c_str(), 0755);
    return d;
}
// a self-signed certificate for a new key
inline Pair make_pair(const std::string& name, const std::string& kind) {
    EVP_PKEY* k = kind == "rsa" ? EVP_RSA_gen(2048) : kind == "ed25519" ? EVP_PKEY_Q_keygen(nullptr, nullptr, "ED25519") : EVP_EC_gen("P-256");
    X509* x = X509_new();
    X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
    X509_gmtime_adj(X509_getm_notBefore(x), -86400);
    X509_gmtime_adj(X509_getm_notAfter(x), 864000);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, reinterpret_cast<const unsigned char*>("localhost"), -1, -1, 0);
    X509_set_issuer_name(x, X509_get_subject_name(x));
    X509_set_pubkey(x, k);
    X509_sign(x, k, kind == "ed25519" ? nullptr : EVP_sha256());
    Pair p;
    p.cert = scratch() + "/" + name + ".crt";
    p.key = scratch() + "/" + name + ".key";
    p.cert_pem = pem([&](BIO* b) { PEM_write_bio_X509(b, x); });
    p.key_pem = pem([&](BIO* b) { PEM_write_bio_PrivateKey(b, k, nullptr, nullptr, 0, nullptr, nullptr); });
    put_file(p.cert, p.cert_pem);
    put_file(p.key, p.key_pem);
    X509_free(x);
    EVP_PKEY_free(k);
    return p;
}
inline const Pair& server_pair() {
    static const Pair p = make_pair("server", "ec");
    return p;
}

inline void (*on_context)(SSL_CTX*) = nullptr;  // sees the clients' context when it is made

class Client {
   public:
    struct Options {
        std::vector<std::string> alpn{"h2"};
        int version = 0;  // 0: any
        bool half_close_ok = true;
    };
    explicit Client(const Options& o) {
        ERR_clear_error();
        static SSL_CTX* ctx = [] {
            SSL_CTX* x = SSL_CTX_new(TLS_client_method());
            if (on_context) {
                on_context(x);
            }
            return x;
        }();
        ssl_ = SSL_new(ctx);
        SSL_set_verify(ssl_, SSL_VERIFY_NONE, nullptr);
        if (o.version) {
            SSL_set_min_proto_version(ssl_, o.version);
            SSL_set_max_proto_version(ssl_, o.version);
        }
        Bytes wire;
        for (auto& a : o.alpn) {
            wire.push_back(static_cast<uint8_t>(a.size()));
            wire.insert(wire.end(), a.begin(), a.end());
        }
        if (!wire.empty()) {
            SSL_set_alpn_protos(ssl_, wire.data(), static_cast<unsigned>(wire.size()));
        }
        in_ = BIO_new(BIO_s_mem());
        out_ = BIO_new(BIO_s_mem());
        BIO_set_mem_eof_return(in_, -1);
        SSL_set_bio(ssl_, in_, out_);
        SSL_set_connect_state(ssl_);
    }
    ~Client() {
        SSL_free(ssl_);
        ERR_clear_error();
    }
    Client(const Client&) = delete;

    // ciphertext from and to the server
    void receive(std::span<const uint8_t> d) {
        if (!d.empty()) {
            BIO_write(in_, d.data(), static_cast<int>(d.size()));
        }
        pump();
    }
    void receive_eof() {
        BIO_set_mem_eof_return(in_, 0);
        pump();
    }
    Bytes take() {  // what is to be sent
        Bytes b(BIO_ctrl_pending(out_));
        if (!b.empty()) {
            BIO_read(out_, b.data(), static_cast<int>(b.size()));
        }
        return b;
    }
    // queues application data; only once connected
    bool send(std::span<const uint8_t> d) {
        ERR_clear_error();
        return d.empty() || SSL_write(ssl_, d.data(), static_cast<int>(d.size())) == static_cast<int>(d.size());
    }
    void close_notify() {
        ERR_clear_error();
        SSL_shutdown(ssl_);
        ERR_clear_error();
    }
    void pump() {
        ERR_clear_error();
        if (!connected && !failed) {
            const int r = SSL_do_handshake(ssl_);
            if (r == 1) {
                connected = true;
                const unsigned char* p = nullptr;
                unsigned n = 0;
                SSL_get0_alpn_selected(ssl_, &p, &n);
                alpn.assign(reinterpret_cast<const char*>(p), n);
            } else {
                const int e = SSL_get_error(ssl_, r);
                failed = e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE;
            }
        }
        while (connected && !failed && !ended) {
            uint8_t buf[16384];
            const int n = SSL_read(ssl_, buf, sizeof buf);
            if (n > 0) {
                received.insert(received.end(), buf, buf + n);
                continue;
            }
            const int e = SSL_get_error(ssl_, n);
            if (e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE) {
                break;
            }
            if (e == SSL_ERROR_ZERO_RETURN) {
                ended = true;
            } else {
                failed = true;
            }
        }
        ERR_clear_error();
    }
    bool connected = false, failed = false, ended = false;
    std::string alpn;
    Bytes received;  // application data
    SSL* raw() {
        return ssl_;
    }

   private:
    SSL* ssl_ = nullptr;
    BIO *in_ = nullptr, *out_ = nullptr;
};
}  // namespace tls
