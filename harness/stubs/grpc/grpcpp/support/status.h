#pragma once
#include "grpc_model.hpp"
