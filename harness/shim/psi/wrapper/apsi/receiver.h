#pragma once
#ifdef VERIF_DK
#include_next <psi/wrapper/apsi/receiver.h>
#else
// Names that the headers of the private look-up entry points mention; nothing of it is run here.
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "apsi/item.h"
#include "yacl/link/link.h"
namespace apsi {
using LabelKey = std::vector<unsigned char>;
struct Stub_ {};
using Request = std::unique_ptr<Stub_>;
using OPRFResponse = std::unique_ptr<Stub_>;
using Response = std::unique_ptr<Stub_>;
using ResultPart = std::unique_ptr<Stub_>;
namespace network { class Channel; }
namespace sender { class SenderDB; }
namespace oprf { class OPRFKey {}; }
namespace receiver { class IndexTranslationTable {}; }
}  // namespace apsi
namespace psi::apsi_wrapper {
class YaclChannel;
class Receiver {
 public:
  explicit Receiver(::apsi::PSIParams) {}
};
class Sender {
 public:
  template <class T> static void BasicSend(::apsi::network::Channel&, std::unique_ptr<T>) {}
};
}  // namespace psi::apsi_wrapper
#endif
