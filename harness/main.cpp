#include "engine.hpp"
#include "device.hpp"
#include <cstring>
int main(int argc, char **argv) {
    for (int i = 1; i + 1 < argc; i++) {
        std::string a = argv[i];
        if (a == "--app") lib::app_so = argv[i + 1]; else if (a == "--plain") lib::plain_so = argv[i + 1]; else if (a == "--unit") lib::unit_so = argv[i + 1];
        else if (a == "--nanos") lib::nanos_so = argv[i + 1]; else if (a == "--debug") lib::debug_so = argv[i + 1];
    }
    return engine_main(argc, argv);
}
