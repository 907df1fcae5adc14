#pragma once
#define CUTTLEFISH_EXPORT
#define CUTTLEFISH_NO_EXPORT
