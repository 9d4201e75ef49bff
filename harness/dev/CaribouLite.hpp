// Stand-in for the CaribouLite C++ API, implemented by the harness.
#pragma once
#include <complex>
#include <cstdint>
#include <iostream>
#include <string>
#include <vector>
class CaribouLiteFreqRange { double a, b; public: CaribouLiteFreqRange(double x, double y) : a(x), b(y) {} double fmin() const { return a; } double fmax() const { return b; } };
class CaribouLiteRadio { public:
    enum RadioType { S1G = 0, HiF = 1 };
    std::vector<CaribouLiteFreqRange> GetFrequencyRange();
    float GetRxSampleRateMin(); float GetRxSampleRateMax(); size_t GetNativeMtuSample();
    void SetFrequency(float); void SetRxSampleRate(float); void SetAgc(bool); void SetRxGain(float); void SetRxBandwidth(float);
    void StartReceiving(); void StopReceiving();
    int ReadSamples(std::complex<float>*, size_t); int ReadSamples(std::complex<short>*, size_t);
};
class CaribouLite { public:
    enum SysVersion { Unknown = 0, CaribouLiteFull = 1, CaribouLiteISM = 2 };
    static bool DetectBoard(SysVersion*, std::string&, std::string&); static std::string GetSystemVersionStr(SysVersion) { return "x"; }
    static CaribouLite& GetInstance(bool = false, bool = false); CaribouLiteRadio* GetRadioChannel(CaribouLiteRadio::RadioType);
};
