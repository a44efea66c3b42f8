#pragma once
#include "ftd2xx.h"
typedef enum { FT4222_OK = 0, FT4222_DEVICE_NOT_FOUND = 2, FT4222_IO_ERROR = 4 } FT4222_STATUS;
typedef enum { SPI_IO_SINGLE = 1, SPI_IO_DUAL = 2, SPI_IO_QUAD = 4 } FT4222_SPIMode;
typedef enum { CLK_NONE = 0, CLK_DIV_2, CLK_DIV_4, CLK_DIV_8, CLK_DIV_16, CLK_DIV_32, CLK_DIV_64, CLK_DIV_128, CLK_DIV_256, CLK_DIV_512 } FT4222_SPIClock;
typedef enum { CLK_IDLE_LOW = 0, CLK_IDLE_HIGH = 1 } FT4222_SPICPOL;
typedef enum { CLK_LEADING = 0, CLK_TRAILING = 1 } FT4222_SPICPHA;
typedef enum { CS_ACTIVE_NEGTIVE = 0, CS_ACTIVE_POSTIVE } SPI_ChipSelect;
typedef enum { SYS_CLK_60 = 0, SYS_CLK_24, SYS_CLK_48, SYS_CLK_80 } FT4222_ClockRate;
typedef enum { DS_4MA = 0, DS_8MA, DS_12MA, DS_16MA } SPI_DrivingStrength;
typedef enum { GPIO_PORT0 = 0, GPIO_PORT1, GPIO_PORT2, GPIO_PORT3 } GPIO_Port;
typedef enum { GPIO_OUTPUT = 0, GPIO_INPUT = 1 } GPIO_Dir;
enum { START = 2, Repeated_START = 3, STOP = 4 };
#ifdef __cplusplus
extern "C" {
#endif
FT4222_STATUS FT4222_SPIMaster_Init(FT_HANDLE h, FT4222_SPIMode m, FT4222_SPIClock c, FT4222_SPICPOL p, FT4222_SPICPHA a, uint8 sso);
FT4222_STATUS FT4222_SPIMaster_SetCS(FT_HANDLE h, SPI_ChipSelect cs);
FT4222_STATUS FT4222_SetClock(FT_HANDLE h, FT4222_ClockRate c);
FT4222_STATUS FT4222_SPI_SetDrivingStrength(FT_HANDLE h, SPI_DrivingStrength c, SPI_DrivingStrength i, SPI_DrivingStrength s);
FT4222_STATUS FT4222_GPIO_Init(FT_HANDLE h, GPIO_Dir d[4]);
FT4222_STATUS FT4222_SetSuspendOut(FT_HANDLE h, BOOL e);
FT4222_STATUS FT4222_SetWakeUpInterrupt(FT_HANDLE h, BOOL e);
FT4222_STATUS FT4222_UnInitialize(FT_HANDLE h);
FT4222_STATUS FT4222_SPIMaster_MultiReadWrite(FT_HANDLE h, uint8* r, uint8* w, uint8 single, uint16 mw, uint16 mr, uint32* got);
FT4222_STATUS FT4222_GPIO_Write(FT_HANDLE h, GPIO_Port p, BOOL v);
FT4222_STATUS FT4222_GPIO_Read(FT_HANDLE h, GPIO_Port p, BOOL* v);
FT4222_STATUS FT4222_I2CMaster_Init(FT_HANDLE h, uint32 k);
FT4222_STATUS FT4222_I2CMaster_ReadEx(FT_HANDLE h, uint16 a, uint8 f, uint8* b, uint16 n, uint16* got);
FT4222_STATUS FT4222_I2CMaster_WriteEx(FT_HANDLE h, uint16 a, uint8 f, uint8* b, uint16 n, uint16* got);
#ifdef __cplusplus
}
#endif
