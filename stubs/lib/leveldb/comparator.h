#include "db.h"
