// Checks of the reference model itself, run by setup.py.
#include "model.hpp"
#include "engine.hpp"
#include <cstdio>
#include <iostream>
#include <sstream>
void define_check(Check &, int) {}
static void ph(const char *what, const Bytes &b, std::string &o) {
  static const char *d = "0123456789abcdef"; o += what; for (auto x : b) { o += d[x >> 4]; o += d[x & 15]; } o += '\n';
}
int main(int argc, char **argv) {
  std::string m = argc > 1 ? argv[1] : "";
  if (m == "hash") {
    std::string l;
    while (std::getline(std::cin, l)) {
      std::istringstream ss(l); std::string a, h; size_t n; ss >> a >> n >> h; Bytes in; if (h == "-") h = "";
      for (size_t i = 0; i + 1 < h.size(); i += 2) in.push_back(strtoul(h.substr(i, 2).c_str(), 0, 16));
      Bytes o = a == "sha3_256" ? model::sha3(256, in) : a == "sha3_512" ? model::sha3(512, in) : model::shake(a == "shake_128" ? 128 : 256, in, n);
      std::string s; ph("", o, s); fputs(s.c_str(), stdout);
    }
  } else if (m == "vectors") {
    int k = atoi(argv[2]); const model::Params &P = model::params(k); model::Sponge rng(168, 0x1F); rng.finalize();
    for (int i = 0; i < 10000; i++) {
      Bytes pk(P.pk), sk(P.sk), ct(P.ct), c(64), s1(32), s2(32); std::string o;
      rng.squeeze(c.data(), 64); model::keypair(k, c.data(), pk.data(), sk.data()); ph("Public Key: ", pk, o); ph("Secret Key: ", sk, o);
      rng.squeeze(c.data(), 32); model::enc(k, pk.data(), c.data(), ct.data(), s1.data()); ph("Ciphertext: ", ct, o); ph("Shared Secret B: ", s1, o);
      model::dec(k, ct.data(), sk.data(), s2.data()); ph("Shared Secret A: ", s2, o);
      rng.squeeze(ct.data(), ct.size()); model::dec(k, ct.data(), sk.data(), s2.data()); ph("Pseudorandom shared Secret A: ", s2, o);
      fwrite(o.data(), 1, o.size(), stdout);
    }
  } else if (m == "aes") {
    uint8_t key[32], in[16], out[16]; for (int i = 0; i < 32; i++) key[i] = i; for (int i = 0; i < 16; i++) in[i] = i * 0x11;
    model::aes256_ecb(key, in, out); std::string s; ph("", Bytes(out, out + 16), s); fputs(s.c_str(), stdout);
  }
  return 0;
}
