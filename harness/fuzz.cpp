/** libFuzzer target: one input through the whole command line program, in process.
 *  First byte: options. The rest is the document. **/
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "streamConsumer.hh"
#include "simpleOutput.hh"
#include "jsonException.hh"
#include "jsonElement.hh"
#include "params.hh"

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    if (!size) return 0;
    const uint8_t o = *data;
    std::vector<std::string> args = { "jsonstroll" };
    if (o & 1) args.push_back("--compress");
    if (o & 2) args.push_back("--ascii");
    if (o & 4) args.push_back("--keep-order");
    if (o & 8) args.push_back("-W");
    std::vector<char *> av;
    for (std::string &s : args) av.push_back(&s[0]);
    av.push_back(nullptr);
    Params params(av.data());
    params.read();
    std::istringstream in(std::string((const char *) data + 1, size - 1));
    std::ostringstream out;
    StreamConsumer stream(in);
    try {
        stream.withConfig(&params)->read();
        if (stream.getRoot()) {
            SimpleOutput::display(out, stream.getRoot(), params);
            if (o & 16) { // read the output back
                std::istringstream in2(out.str());
                StreamConsumer again(in2);
                again.withConfig(&params)->read();
            }
        }
        for (const Warning &w : stream.getMessages()) {
            std::string s = w().getHistory() + w().what() + w.getType();
            if (s.empty() || !w().currentLine()) abort();
        }
    }
    catch (JsonException &e) {
        std::string s = e.getHistory() + e.what();
        if (s.empty() || !e.currentLine()) abort();
    }
    return 0;
}
