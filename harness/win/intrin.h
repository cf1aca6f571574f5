#pragma once
unsigned char _BitScanForward(unsigned long* index, uint32_t mask);
unsigned char _BitScanReverse(unsigned long* index, uint32_t mask);
unsigned char _BitScanForward64(unsigned long* index, uint64_t mask);
unsigned char _BitScanReverse64(unsigned long* index, uint64_t mask);
