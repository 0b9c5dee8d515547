#pragma once
#include <opentelemetry/stub_all.h>
