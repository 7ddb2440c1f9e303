#include <iostream>
