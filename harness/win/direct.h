#pragma once
int mkdir(const char* path);
int _mkdir(const char* path);
