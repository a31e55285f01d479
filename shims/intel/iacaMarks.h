#pragma once
#define IACA_START
#define IACA_END
#define IACA_VC64_START
#define IACA_VC64_END
