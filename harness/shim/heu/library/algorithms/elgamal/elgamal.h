#pragma once
namespace heu::lib::algorithms::elgamal { class Ciphertext {}; class PublicKey {}; class SecretKey {}; }
