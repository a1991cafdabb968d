#pragma once
#include "../simros.h"
