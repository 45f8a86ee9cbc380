// an independent PolicyNet: parameters read from a stored file, forward pass, one policy-gradient step with Adam
struct Net3 {
  int s[4];
  std::vector<double> w[3], b[3];
  double rma = 0;
  int tc = 0;
  // optimiser state, zero in a fresh model
  std::vector<double> wm[3], wv[3], bm[3], bv[3];
  long step = 0;
  bool kink = false;  // a pre-activation was exactly 0, where ReLU has no derivative
  void shape(int nf, int np)
  {
    s[0] = 64 * nf;
    s[1] = s[2] = (64 * nf + np) / 2;
    s[3] = np;
    for (int l = 0; l < 3; ++l) {
      w[l].assign(s[l] * s[l + 1], 0);
      b[l].assign(s[l + 1], 0);
      wm[l] = wv[l] = w[l];
      bm[l] = bv[l] = b[l];
    }
    step = 0;
  }
  bool read(const std::string &fn)
  {
    std::ifstream f(fn, std::ios::binary);
    for (int l = 0; l < 3; ++l) {
      f.read((char *)w[l].data(), 8 * w[l].size());
      f.read((char *)b[l].data(), 8 * b[l].size());
    }
    f.read((char *)&rma, 8);
    f.read((char *)&tc, 4);
    bool ok = (bool)f;
    f.get();
    return ok && f.eof();
  }
  void write(const std::string &fn)
  {
    std::ofstream f(fn, std::ios::binary);
    for (int l = 0; l < 3; ++l) {
      f.write((char *)w[l].data(), 8 * w[l].size());
      f.write((char *)b[l].data(), 8 * b[l].size());
    }
    f.write((char *)&rma, 8);
    f.write((char *)&tc, 4);
  }
  static std::vector<double> encode(const std::vector<float> &f)
  {
    std::vector<double> x;
    for (float v : f)
      for (int j = 0; j < 64; ++j)
        x.push_back(((uint64_t)v >> j) & 1);
    return x;
  }
  std::vector<double> fc(int l, const std::vector<double> &x) const
  {
    std::vector<double> y(b[l]);
    for (int j = 0; j < s[l + 1]; ++j)
      for (int k = 0; k < s[l]; ++k)
        y[j] += w[l][j * s[l] + k] * x[k];
    return y;
  }
  static std::vector<double> relu(std::vector<double> x)
  {
    for (auto &v : x)
      v = v > 0 ? v : 0;
    return x;
  }
  static std::vector<double> softmax(const std::vector<double> &x)
  {
    double m = *std::max_element(x.begin(), x.end()), sum = 0;
    std::vector<double> y;
    for (double v : x)
      y.push_back(std::exp(v - m)), sum += y.back();
    for (auto &v : y)
      v /= sum;
    return y;
  }
  std::vector<double> probs(const std::vector<float> &f) const
  {
    return softmax(fc(2, relu(fc(1, relu(fc(0, encode(f)))))));
  }
  // one training on a batch of (features, action, metric); false when the threshold suppresses it
  bool train(const std::vector<std::tuple<std::vector<float>, int, double>> &ms, double lr, double beta, double b1,
             double b2, double threshold)
  {
    int B = ms.size();
    if (!B) return false;
    double avg = 0;
    for (auto &m : ms)
      avg += std::exp(-std::get<2>(m));
    avg /= B;
    rma = beta * rma + (1 - beta) * avg;
    double base = rma / (1 - std::pow(beta, ++tc));
    if (base < threshold) return false;
    std::vector<double> gw[3], gb[3];
    for (int l = 0; l < 3; ++l) {
      gw[l].assign(w[l].size(), 0);
      gb[l].assign(b[l].size(), 0);
    }
    for (auto &m : ms) {
      std::vector<double> x[3], o[3], g;
      x[0] = encode(std::get<0>(m));
      o[0] = fc(0, x[0]);
      x[1] = relu(o[0]);
      o[1] = fc(1, x[1]);
      x[2] = relu(o[1]);
      o[2] = fc(2, x[2]);
      double r = std::exp(-std::get<2>(m)) - base;
      for (double p : softmax(o[2]))
        g.push_back(-r * p / B);
      g[std::get<1>(m)] += r / B;
      for (int l = 2; l >= 0; --l) {
        std::vector<double> h(s[l], 0);
        for (int j = 0; j < s[l + 1]; ++j) {
          for (int k = 0; k < s[l]; ++k) {
            gw[l][j * s[l] + k] += g[j] * x[l][k];
            h[k] += g[j] * w[l][j * s[l] + k];
          }
          gb[l][j] += g[j];
        }
        if (l)
          for (int k = 0; k < s[l]; ++k)
            if (!(o[l - 1][k] > 0)) kink = kink || o[l - 1][k] == 0, h[k] = 0;
        g = h;
      }
    }
    ++step;
    auto adam = [&](std::vector<double> &p, std::vector<double> &m, std::vector<double> &v, std::vector<double> &g) {
      for (size_t i = 0; i < p.size(); ++i) {
        m[i] = b1 * m[i] + (1 - b1) * g[i];
        v[i] = b2 * v[i] + (1 - b2) * g[i] * g[i];
        p[i] += lr * (m[i] / (1 - std::pow(b1, step))) / (std::sqrt(v[i] / (1 - std::pow(b2, step))) + 1e-8);
      }
    };
    for (int l = 0; l < 3; ++l) {
      adam(w[l], wm[l], wv[l], gw[l]);
      adam(b[l], bm[l], bv[l], gb[l]);
    }
    return true;
  }
  // where the parameters differ, or ""
  std::string diff(const Net3 &n, double lr) const
  {
    auto far = [&](double a, double c) { return !(a != a && c != c) && !(std::fabs(a - c) <= 1e-9 * (1 + std::fabs(a)) + 1e-5 * std::fabs(lr)); };
    for (int l = 0; l < 3; ++l) {
      for (size_t i = 0; i < w[l].size(); ++i)
        if (far(w[l][i], n.w[l][i])) return fmt("layer %d weight %zu: %.12g vs %.12g", l + 1, i, w[l][i], n.w[l][i]);
      for (size_t i = 0; i < b[l].size(); ++i)
        if (far(b[l][i], n.b[l][i])) return fmt("layer %d bias %zu: %.12g vs %.12g", l + 1, i, b[l][i], n.b[l][i]);
    }
    if (std::fabs(rma - n.rma) > 1e-9) return fmt("reward average: %.12g vs %.12g", rma, n.rma);
    if (tc != n.tc) return fmt("training count: %d vs %d", tc, n.tc);
    return "";
  }
};
