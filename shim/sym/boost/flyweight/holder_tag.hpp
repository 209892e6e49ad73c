#pragma once
#include <boost/flyweight/flyweight.hpp>
