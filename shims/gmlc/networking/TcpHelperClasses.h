#pragma once
#include "TcpConnection.h"
#include "TcpServer.h"
