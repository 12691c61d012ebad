# the repo's bus tests against the stub
cd /repo && for t in test_bus test_bus_extended test_pin test_clock; do g++ -std=c++17 -g -I src/DRAMPower -I /verif/stub tests/tests_misc/$t.cpp -lgtest -lgtest_main -lpthread -o /tmp/$t 2>&1 | head -5 && /tmp/$t 2>&1 | tail -3; done
