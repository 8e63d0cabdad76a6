// A NATS library whose every delivery, timeout and failure is a choice of the exploration. It checks how it is used:
// objects are destroyed once and not used afterwards, handed messages are destroyed by the client.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace fake {
struct Sent { std::string subject, reply, data; };
struct State {
    bool fail_connect = false, fail_publish = false;
    int fail_subscribe = -1;                      // index of the subscription that fails
    std::vector<Sent> sent;
    std::function<void(const Sent&)> on_publish;
};
extern State state;
void reset();
// a message arrives at the client's connection for a subject; false if nobody is subscribed
bool arrive(const std::string& subject, const std::string& data, const std::string& reply = "");
std::string subscribed(int i);                    // subject of the i-th successful subscription
int subscriptions();
bool idle();                                      // nothing pending, no callback running
void finish();                                    // at the end: everything destroyed exactly once
}
